"""Function and method tables (builtins, numpy, bottleneck, array / list / set /
dict / str methods)."""
from . import terms as T
from .terms import K, TRUE, FALSE, NONE
from .values import *
from .facts import ALLKINDS
from . import models as M
from . import textmodel

F = frozenset
INEXACT, INT, BOOL, STR, OBJ = F(['inexact']), F(['int']), F(['bool']), F(['str']), F(['object'])

NATS = {}
ARRM = {}
LISTM = {}
SETM = {}
DICTM = {}


def nat(*names):
    def deco(f):
        for n in names:
            NATS[n] = f
        return f
    return deco


def arrm(*names):
    def deco(f):
        for n in names:
            ARRM[n] = f
        return f
    return deco


EXC = set('''Exception BaseException StandardError ValueError TypeError IndexError KeyError
AttributeError NotImplementedError RuntimeError IOError OSError ImportError AssertionError
ZeroDivisionError StopIteration ArithmeticError LookupError OverflowError NameError
UnboundLocalError SyntaxError Warning DeprecationWarning UserWarning RuntimeWarning EnvironmentError
FloatingPointError MemoryError KeyboardInterrupt SystemExit UnicodeError'''.split())


PROCSTATE = ('np.random.seed', 'np.random.set_state', 'random.seed', 'random.setstate', 'os.chdir', 'os.putenv',
             'os.umask', 'np.set_printoptions', 'np.setbufsize', 'np.set_numeric_ops', 'np.set_string_function',
             'np.seterrcall', 'sys.setrecursionlimit', 'sys.settrace', 'sys.setcheckinterval', 'locale.setlocale',
             'decimal.setcontext', 'gc.disable', 'socket.setdefaulttimeout', 'sys.path.append', 'sys.path.insert',
             'os.environ.update', 'os.environ.setdefault')
WARNSTATE = ('warnings.simplefilter', 'warnings.filterwarnings', 'warnings.resetwarnings')
NONDET = ('time.time', 'time.clock', 'time.localtime', 'time.ctime', 'datetime.datetime.now', 'datetime.date.today',
          'datetime.datetime.today', 'datetime.datetime.utcnow', 'os.getpid', 'os.urandom', 'uuid.uuid4', 'uuid.uuid1',
          'builtins.id', 'builtins.hash', 'os.getcwd')


def call_nat(I, name, args, kw):
    f = NATS.get(name)
    if name in PROCSTATE or name in WARNSTATE and not I.catching:
        I.event('procstate', name=name)
    elif name in NONDET:
        I.event('nondet', name=name)
    if I.world is not None:
        f = I.h5.NATS.get(name, f)
    if any(type(a).__name__ == 'StarV' for a in args) and name not in STAROK:
        return star_call(I, name, args, kw)
    if f is not None:
        return f(I, args, kw)
    last = name.split('.')[-1]
    if name.startswith('builtins.') and last in EXC:
        return ExcV(last, tuple(args))
    if name.startswith('np.'):
        base = name[3:]
        if base in M.UFUNC1 or base in M.UFUNC2:
            out = kw.pop('out', None)
            n = 1 if base in M.UFUNC1 else 2
            if len(args) > n and out is None:
                out = args[n]
            vals = args[:n]
            if len(vals) < n:
                I.raise_('TypeError')
            if any(isinstance(v, Unk) for v in vals):
                live = [v for v in vals if isinstance(v, Arr)]
                return M.unkarr(I, live[0]) if live else Unk(name)
            return M.ew(I, base, vals, out)
        if base.endswith('.reduce') or base.endswith('.accumulate'):
            uf, meth = base.rsplit('.', 1)
            if meth == 'accumulate':
                return scan(I, 'acc:' + uf, args, kw)
            return red(I, 'red:' + uf, args, kw, default_axis=0)
        if base in REDUCTIONS:
            return red(I, REDUCTIONS[base], args, kw)
    if name.startswith('bn.'):
        base = name[3:]
        if base in BNRED:
            return red(I, BNRED[base], args, kw)
        if base.startswith('move_'):
            return bnmove(I, base, args, kw)
    if name.startswith('np.random.') or name.startswith('random.'):
        return rand_call(I, name, args, kw)
    live = [a for a in args if isinstance(a, Arr)]
    return I.unk('call of %s' % name)


STAROK = {'builtins.zip', 'builtins.map', 'builtins.len'}


def star_call(I, name, args, kw):
    return I.unk('call of %s with abstract *args' % name)


def call_meth(I, obj, name, args, kw):
    if isinstance(obj, Arr):
        f = ARRM.get(name)
        if f is not None:
            return f(I, obj, args, kw)
        if name in REDUCTIONS:
            return red(I, REDUCTIONS[name], [obj] + args, kw)
        if name == '__getitem__':
            return M.index(I, obj, args[0])
        if name == '__setitem__':
            return M.store(I, obj, args[0], args[1]) or Const(None)
        r = dunder(I, obj, name, args)
        if r is not None:
            return r
        return I.unk('array method %s' % name)
    if isinstance(obj, (PyList, TupleV)):
        return list_meth(I, obj, name, args, kw)
    if isinstance(obj, PySet):
        return set_meth(I, obj, name, args, kw)
    if isinstance(obj, PyDict):
        return dict_meth(I, obj, name, args, kw)
    if isinstance(obj, I.h5.H5V):
        return obj.method(I, name, args, kw)
    if isinstance(obj, SliceV):
        if name == 'indices' and args:
            return slice_indices(I, obj, args[0])
        return I.unk('slice method')
    if isinstance(obj, (Const, Sym)):
        return scalar_meth(I, obj, name, args, kw)
    if isinstance(obj, M.FlatV):
        return I.unk('flat method')
    if isinstance(obj, Nat):
        return call_nat(I, obj.name + '.' + name, args, kw)
    return I.unk('method %s of %s' % (name, type(obj).__name__))


UNARY = {'__neg__': 'USub', '__pos__': 'UAdd', '__invert__': 'Invert'}
BINARY = {'__add__': 'Add', '__sub__': 'Sub', '__mul__': 'Mult', '__div__': 'Div',
          '__truediv__': 'Div', '__floordiv__': 'FloorDiv', '__pow__': 'Pow', '__mod__': 'Mod',
          '__and__': 'BitAnd', '__or__': 'BitOr', '__xor__': 'BitXor'}
CMP = {'__eq__': '==', '__ne__': '!=', '__lt__': '<', '__gt__': '>', '__le__': '<=',
       '__ge__': '>='}


def dunder(I, obj, name, args):
    if name in UNARY and not args:
        return I.unop(UNARY[name], obj)
    if name == '__abs__':
        return M.ew(I, 'abs', [obj])
    if len(args) == 1:
        if name in BINARY:
            return I.binop(BINARY[name], obj, args[0])
        if name in CMP:
            return I.compare(CMP[name], obj, args[0])
        if name.startswith('__r') and '__' + name[3:] in BINARY:
            return I.binop(BINARY['__' + name[3:]], args[0], obj)
        if name.startswith('__i') and '__' + name[3:] in BINARY:
            return I.inplace(BINARY['__' + name[3:]], obj, args[0])
    if name == '__len__':
        return call_nat(I, 'builtins.len', [obj], {})
    return None


# ------------------------------------------------------------------ builtins

@nat('builtins.len')
def _len(I, args, kw):
    v = args[0]
    if isinstance(v, Inst):
        m = v.cls.lookup('__len__')
        if m is None:
            I.raise_('TypeError')
        return I.call(BoundV(m, v), [], {})
    if isinstance(v, Const) and isinstance(v.v, str):
        return Const(len(v.v))
    if isinstance(v, Arr):
        if not v.dims:
            I.raise_('TypeError')
        return M.shape_tuple(I, v).items[0]
    if isinstance(v, (TupleV, PyList)):
        t, items = I.seq_of(v)
        if items is not None:
            return Const(len(items))
        return I.num(I.facts.norm(T.length(t)), 'int')
    if isinstance(v, PySet):
        return I.num(I.facts.norm(T.length(I.facts.norm(v.term))), 'int')
    if isinstance(v, PyDict):
        if v.entries is not None:
            return Const(len(v.entries))
        t, _ = I.seq_of(v)
        return Sym(('len', ('set', t)), 'int')
    if isinstance(v, Const):
        I.raise_('TypeError')
    if isinstance(v, Sym):
        if v.typ in ('int', 'float', 'bool', 'num'):
            I.raise_('TypeError')
        return Sym(('app', 'count', v.term), 'int')
    return Unk('len')


def int_of(I, v):
    if isinstance(v, Const) and isinstance(v.v, int):
        return K(int(v.v))
    if isinstance(v, Sym):
        return I.facts.norm(v.term)
    return None


@nat('builtins.range', 'builtins.xrange')
def _range(I, args, kw):
    ts = [int_of(I, a) for a in args]
    if any(t is None for t in ts):
        if any(isinstance(a, Const) for a, t in zip(args, ts) if t is None):
            I.raise_('TypeError')
        return I.new(PyList(None, ('opq', T.fresh())))
    if all(T.isint(t) for t in ts):
        r = list(range(*[t[2] for t in ts]))
        if len(r) > 200:
            return I.mkseq(T.rng(K(len(r))))
        return I.new(PyList([Const(x) for x in r]))
    if len(ts) == 1:
        return I.mkseq(T.rng(ts[0]))
    if len(ts) == 3 and ts[0][0] == 'sidx' and ts == [('sidx', i) + ts[0][2:] for i in range(3)]:
        n, a, b, c = ts[0][2:]
        return I.mkseq(T.slc(T.rng(n), a, b, c))
    step = ts[2] if len(ts) == 3 else K(1)
    if step == K(1):
        n = T.psub(ts[1], ts[0])
        q = I.facts.query(T.le(K(0), n))
        j = T.fresh_j()
        if q is False:
            return I.new(PyList([]))
        if q is None:
            # an empty range when the bounds cross
            if not I.decide(T.le(K(0), n)):
                return I.new(PyList([]))
        return I.mkseq(T.comp(((j, n),), T.padd(ts[0], ('j', j)), TRUE))
    if step == K(-1):
        n = T.psub(ts[0], ts[1])
        j = T.fresh_j()
        if I.facts.query(T.le(K(0), n)) is True:
            base = T.comp(((j, n),), T.psub(ts[0], ('j', j)), TRUE)
            if ts[1] == K(-1):
                return I.mkseq(T.slc(T.rng(n), NONE, NONE, K(-1)))
            return I.mkseq(base)
    if T.isint(step) and step[2] > 0:
        n = ('app', 'count', ('rangelen', ts[0], ts[1], step))
        j = T.fresh_j()
        return I.mkseq(T.comp(((j, n),), T.padd(ts[0], T.pmul(step, ('j', j))), TRUE))
    return I.new(PyList(None, ('opq', T.fresh())))


def tolist_value(I, v):
    """list(v)"""
    if isinstance(v, Arr) and len(v.dims) > 1:
        t, items = I.seq_of(v)
        if items is not None:
            return I.new(PyList(items))
        return I.new(PyList(None, ('opq', T.fresh())))
    if isinstance(v, Inst):
        t, items = I.seq_of(v)
        if t is None and items is None:
            return I.new(PyList(None, ('opq', T.fresh())))
    t, items = I.seq_of(v)
    if items is not None:
        return I.new(PyList(list(items)))
    if t is not None:
        return I.mkseq(t)
    if isinstance(v, Const):
        I.raise_('TypeError')
    if isinstance(v, Sym) and v.typ in ('int', 'float', 'num', 'bool', 'label'):
        if v.typ == 'label':
            return I.new(PyList(None, ('opq', T.fresh())))
        I.raise_('TypeError')
    if isinstance(v, Unk):
        return Unk('list of ' + v.why)
    return I.new(PyList(None, ('opq', T.fresh())))


@nat('builtins.list')
def _list(I, args, kw):
    if not args:
        return I.new(PyList([]))
    return tolist_value(I, args[0])


@nat('builtins.tuple')
def _tuple(I, args, kw):
    if not args:
        return TupleV([])
    v = args[0]
    t, items = I.seq_of(v)
    if items is not None:
        return TupleV(items)
    if t is not None:
        return I.new(PyList(None, t, 'tuple'))
    if isinstance(v, Const):
        I.raise_('TypeError')
    return Unk('tuple')


@nat('builtins.iter')
def _iter(I, args, kw):
    v = args[0]
    if isinstance(v, (PyList, TupleV, PySet, PyDict)) and getattr(v, 'pytype', '') != 'iter':
        t, items = I.seq_of(v)
        if items is not None:
            return I.new(PyList(list(items), None, 'iter'))
        if t is not None:
            return I.new(PyList(None, t, 'iter'))
    return v


@nat('itertools.chain.from_iterable')
def _chained(I, args, kw):
    _, items = I.seq_of(args[0])
    if items is None:
        return I.new(PyList(None, ('opq', T.fresh())))
    out = I.new(PyList([]))
    for x in items:
        I.list_extend(out, x)
    return out


@nat('builtins.set', 'builtins.frozenset')
def _set(I, args, kw):
    return mkset(I, args)


def mkset(I, args, frozen=False):
    if not args:
        return I.new(PySet(('union', ()), frozen))
    t = set_term(I, args[0])
    return I.new(PySet(t, frozen))


NATS['builtins.frozenset'] = lambda I, args, kw: mkset(I, args, True)


def set_term(I, v):
    if isinstance(v, PySet):
        return I.facts.norm(v.term)
    t, items = I.seq_of(v)
    if items is not None:
        if not items:
            return ('union', ())
        return T.mkset(('lst',) + tuple(I.freeze(x) for x in items))
    if t is not None:
        return T.mkset(I.facts.norm(t))
    if isinstance(v, Const):
        I.raise_('TypeError')
    if isinstance(v, Sym) and v.typ == 'any' and v.term[0] == 'app':
        return ('set', ('iterof', v.term))
    return ('set', ('opq', T.fresh()))


@nat('builtins.dict')
def _dict(I, args, kw):
    if args:
        v = args[0]
        if isinstance(v, PyDict):
            d = I.new(PyDict(list(v.entries) if v.entries is not None else None, v.term))
        elif isinstance(v, Unk):
            return Unk('dict')
        else:
            d = M.dict_from_pairs(I, v)
    else:
        d = I.new(PyDict([]))
    if kw and d.entries is not None:
        for k, v in kw.items():
            d.entries = [e for e in d.entries if e[0] != K(k)] + [(K(k), Const(k), v)]
    return d


def seq_parts(I, v):
    """('items', list) or ('comp', bases, fn(js)->term elem, p)"""
    t, items = I.seq_of(v)
    if items is not None:
        return ('items', items)
    if t is None:
        return None
    return ('term', I.facts.norm(t))


def tuple_width(t):
    """number of elements of each element of a sequence of tuples"""
    while t[0] in ('srt', 'slc', 'perm', 'slist', 'set'):
        t = t[1]
    if t[0] == 'comp' and t[2][0] == 'tup':
        return len(t[2]) - 1
    return None


@nat('builtins.zip', 'itertools.izip')
def _zip(I, args, kw):
    from .interp import StarV
    if len(args) == 1 and isinstance(args[0], StarV):
        # zip(*rows): rows an abstract list of tuples
        t, items = I.seq_of(args[0].v)
        if t is not None and t[0] == 'comp' and t[2][0] in ('tup', 'lst'):
            out = []
            for k in range(1, len(t[2])):
                b, f, p = T.opencomp(t)
                out.append(I.mkseq(T.comp(b, f[k], p), 'tuple'))
            return I.new(PyList(out))
        w = tuple_width(I.facts.norm(t)) if t is not None else None
        if w is not None:
            out = []
            for k in range(w):
                j = T.fresh_j()
                x = T.at(t, ('j', j))
                out.append(I.mkseq(T.comp(((j, T.length(t)),), x[k + 1] if x[0] == 'tup' else ('at', x, K(k)), TRUE),
                                   'tuple'))
            return I.new(PyList(out))
        return I.new(PyList(None, ('opq', T.fresh())))
    parts = []
    for a in args:
        if isinstance(a, StarV):
            return I.new(PyList(None, ('opq', T.fresh())))
        p = seq_parts(I, a)
        if p is None:
            return I.new(PyList(None, ('opq', T.fresh()))) if isinstance(a, Unk) or not isinstance(a, Const) \
                else I.raise_('TypeError')
        parts.append(p)
    if all(p[0] == 'items' for p in parts):
        n = min([len(p[1]) for p in parts] or [0])
        return I.new(PyList([TupleV([p[1][i] for p in parts]) for i in range(n)]))
    ts = [p[1] if p[0] == 'term' else ('lst',) + tuple(I.freeze(x) for x in p[1]) for p in parts]
    lens = [I.facts.norm(T.length(t)) for t in ts]
    n = lens[0]
    for m in lens[1:]:
        if m != n:
            q = I.facts.query(T.le(n, m))
            if q is None:
                q = I.decide(T.le(n, m))
            if not q:
                n = m
    # keep comprehensions with a filter as they are when alone
    j = T.fresh_j()
    f = ('tup',) + tuple(T.at(t, ('j', j)) for t in ts)
    return I.mkseq(T.comp(((j, n),), f, TRUE))


@nat('builtins.enumerate')
def _enumerate(I, args, kw):
    start = int_of(I, args[1]) if len(args) > 1 else (int_of(I, kw['start']) if 'start' in kw else K(0))
    p = seq_parts(I, args[0])
    if p is None or start is None:
        return I.new(PyList(None, ('opq', T.fresh())))
    if p[0] == 'items':
        return I.new(PyList([TupleV([I.num(T.padd(start, K(i))), x]) for i, x in enumerate(p[1])]))
    t = p[1]
    j = T.fresh_j()
    f = ('tup', T.padd(start, ('j', j)), T.at(t, ('j', j)))
    return I.mkseq(T.comp(((j, T.length(t)),), f, TRUE))


@nat('builtins.map', 'itertools.imap')
def _map(I, args, kw):
    fn = args[0]
    if len(args) == 1:
        I.raise_('TypeError')
    if len(args) == 2:
        src = args[1]
        one = True
    else:
        src = _zip(I, args[1:], {})
        one = False
    if isinstance(fn, Const) and fn.v is None:
        return tolist_value(I, src)

    def f(x):
        if one:
            return I.call(fn, [x], {})
        t, items = I.seq_of(x)
        if items is None:
            items = [I.thaw(T.at(t, K(i))) for i in range(len(args) - 1)]
        return I.call(fn, items, {})
    if isinstance(fn, FuncV) and fn.node is not None and fn.name == '<lambda>' and not one:
        pass
    t, items = I.seq_of(src)
    if t is None and items is None:
        return I.new(PyList(None, ('opq', T.fresh())))
    return I.collect(src, f)


@nat('builtins.filter', 'itertools.ifilter')
def _filter(I, args, kw):
    fn, src = args
    t, items = I.seq_of(src)
    if t is None and items is None:
        return I.new(PyList(None, ('opq', T.fresh())))

    def f(x):
        r = x if isinstance(fn, Const) and fn.v is None else I.call(fn, [x], {})
        return x if I.truth(r) else None
    return I.collect(src, f)


@nat('builtins.reduce', 'functools.reduce')
def _reduce(I, args, kw):
    t, items = I.seq_of(args[1])
    if items is None:
        return I.unk('reduce over abstract sequence')
    acc = None
    if len(args) > 2:
        acc = args[2]
    else:
        if not items:
            I.raise_('TypeError')
        acc, items = items[0], items[1:]
    for x in items:
        acc = I.call(args[0], [acc, x], {})
    return acc


def sort_term(I, v, rev):
    t, items = I.seq_of(v)
    if items is not None:
        if all(isinstance(x, Const) for x in items):
            try:
                r = sorted([x.v for x in items], reverse=bool(rev == TRUE))
                return None, [Const(x) for x in r]
            except TypeError:
                pass
        if len(items) <= 1:
            return None, list(items)
        return T.srt(('lst',) + tuple(I.freeze(x) for x in items), rev), None
    if t is None:
        return ('opq', T.fresh()), None
    t = I.facts.norm(t)
    if t[0] == 'slist':
        return T.srt(t[1], rev), None
    if t[0] == 'firsts':
        return T.srt(T.mkset(t), rev), None
    return T.srt(t, rev), None


def revterm(I, kw):
    r = kw.get('reverse')
    if r is None:
        return FALSE
    t = I.truth_term(r)
    return t


@nat('builtins.sorted')
def _sorted(I, args, kw):
    if 'key' in kw or 'cmp' in kw or len(args) > 1:
        return sorted_key(I, args, kw)
    t, items = sort_term(I, args[0], revterm(I, kw))
    if items is not None:
        return I.new(PyList(items))
    return I.mkseq(t)


def sorted_key(I, args, kw):
    """sorted(range(n), key=L.__getitem__) and friends: a permutation"""
    t, items = I.seq_of(args[0])
    if items is not None:
        t = ('lst',) + tuple(I.freeze(x) for x in items)
    if t is None:
        return I.new(PyList(None, ('opq', T.fresh())))
    t = I.facts.norm(t)
    if t[0] == 'slist':
        return I.new(PyList(None, ('perm', ('vals', ('opqc', T.fresh()), t), T.fresh())))
    # enumerate pairs / position sorting
    key = kw.get('key')
    rev = revterm(I, kw)
    if key is not None and t[0] not in ('lst',):
        j = T.fresh_j()
        try:
            e = I.thaw(T.at(t, ('j', j)))
            kv = I.call(key, [e], {})
            kt = I.freeze(kv)
            L = T.comp(((j, T.length(t)),), kt, TRUE)
            if L == t:
                return I.mkseq(T.srt(t, rev))
            if T.is_rng(t) and I.facts.uniq(L):
                # argsort of L
                s = T.srt(T.mkset(L), rev)
                k2 = T.fresh_j()
                return I.mkseq(T.comp(((k2, T.length(s)),), T.pos(L, T.at(s, ('j', k2))), TRUE))
        except Exception as e:
            if type(e).__name__ in ('PathEnd', 'AbsRaise'):
                raise
    return I.new(PyList(None, ('perm', t, T.fresh())))


@nat('builtins.reversed')
def _reversed(I, args, kw):
    t, items = I.seq_of(args[0])
    if items is not None:
        return I.new(PyList(items[::-1]))
    if t is not None:
        return I.mkseq(T.slc(t, NONE, NONE, K(-1)))
    return Unk('reversed')


def minmax(I, args, kw, name):
    if len(args) == 1:
        v = args[0]
        t, items = I.seq_of(v)
        if items is None:
            if t is not None:
                return Sym(('app', name, t), 'int' if I.scalar_type(T.at(t, ('j', 0))) == 'int' else 'any')
            return Unk(name)
    else:
        items = args
    if not items:
        I.raise_('ValueError')
    cur = items[0]
    for x in items[1:]:
        if isinstance(cur, Unk) or isinstance(x, Unk):
            return Unk(name)
        r = I.compare('<' if name == 'min' else '>', x, cur)
        if I.truth(r):
            cur = x
    return cur


NATS['builtins.max'] = lambda I, a, k: minmax(I, a, k, 'max')
NATS['builtins.min'] = lambda I, a, k: minmax(I, a, k, 'min')


@nat('builtins.sum')
def _sum(I, args, kw):
    t, items = I.seq_of(args[0])
    if items is not None:
        acc = args[1] if len(args) > 1 else Const(0)
        for x in items:
            acc = I.binop('Add', acc, x)
        return acc
    if t is not None:
        t = I.facts.norm(t)
        if t[0] == 'comp' and len(t[1]) == 1:
            b, f, p = T.opencomp(t)
            if f == K(1):
                return Sym(('app', 'count', T.comp(b, K(1), p)), 'int')
            if p == TRUE and b[0][0] not in T.free_j(f):
                return I.num(T.pmul(b[0][1], f))
        return Sym(('app', 'sum', t), 'num')
    return Unk('sum')


def anyall(I, v, name):
    if isinstance(v, Arr):
        return arr_anyall(I, v, name)
    t, items = I.seq_of(v)
    if items is not None:
        ts = [I.truth_term(x) for x in items]
        return I.bool_(T.disj(ts) if name == 'any' else T.conj(ts))
    if t is None:
        return Unk(name)
    t = I.facts.norm(t)
    if t[0] == 'comp':
        b, f, p = T.opencomp(t)
        ft = I.truth_term(I.thaw(f))
        if name == 'any':
            c = T.comp(b, K(1), T.conj([p, ft]))
            return I.bool_(('some', T.comp(b, T.conj([p, ft]), TRUE)) if T.conj([p, ft]) != FALSE else FALSE)
        n = T.conj([p, T.neg(ft)])
        if n == FALSE:
            return Const(True)
        return I.bool_(T.neg(('some', T.comp(b, n, TRUE))))
    return Sym(('app', name, t), 'bool')


NATS['builtins.any'] = lambda I, a, k: anyall(I, a[0], 'any')
NATS['builtins.all'] = lambda I, a, k: anyall(I, a[0], 'all')


@nat('builtins.abs')
def _abs(I, args, kw):
    v = args[0]
    if isinstance(v, Inst):
        m = v.cls.lookup('__abs__')
        if m is None:
            I.raise_('TypeError')
        return I.call(BoundV(m, v), [], {})
    if isinstance(v, Const):
        try:
            return Const(abs(v.v))
        except TypeError:
            I.raise_('TypeError')
    if isinstance(v, Arr):
        return M.ew(I, 'absolute', [v])
    if isinstance(v, Sym):
        if v.typ == 'int':
            if I.decide(T.le(K(0), v.term)):
                return v
            return I.num(T.pmul(K(-1), v.term))
        return Sym(('app', 'abs', v.term), v.typ)
    return Unk('abs')


@nat('builtins.int', 'builtins.long', 'np.int64', 'np.int_', 'np.int32', 'np.int')
def _int(I, args, kw):
    if not args:
        return Const(0)
    v = args[0]
    if isinstance(v, Const):
        try:
            return Const(int(v.v))
        except (TypeError, ValueError) as e:
            I.raise_(type(e).__name__)
    if isinstance(v, Sym):
        if v.typ in ('int', 'bool'):
            return Sym(v.term, 'int')
        return Sym(('app', 'int', v.term), 'int')
    if isinstance(v, Arr):
        return Sym(('app', 'item', v.buf.content), 'int')
    return Unk('int')


@nat('builtins.float', 'np.float64', 'np.float', 'np.float_', 'np.double')
def _float(I, args, kw):
    if not args:
        return Const(0.0)
    v = args[0]
    if isinstance(v, Const):
        try:
            return Const(float(v.v))
        except (TypeError, ValueError) as e:
            I.raise_(type(e).__name__)
    if isinstance(v, Sym):
        return Sym(v.term if v.typ in ('int', 'float', 'num') else ('app', 'float', v.term), 'num')
    if isinstance(v, Arr):
        return Sym(('app', 'item', v.buf.content), 'num')
    return Unk('float')


@nat('builtins.bool', 'np.bool_', 'np.bool')
def _bool(I, args, kw):
    if not args:
        return Const(False)
    return I.bool_(I.facts.norm(I.truth_term(args[0])))


@nat('builtins.repr')
def _repr(I, args, kw):
    if len(args) == 1 and isinstance(args[0], Const) and isinstance(args[0].v, str):
        return Sym(('app', 'repr', K(args[0].v)), 'str')
    if len(args) == 1 and isinstance(args[0], Sym):
        return Sym(('app', 'repr', args[0].term), 'str')
    return _str(I, args, kw)


@nat('builtins.str', 'builtins.unicode', 'np.str_', 'np.string_', 'np.str')
def _str(I, args, kw):
    if not args:
        return Const('')
    v = args[0]
    if isinstance(v, Const) and isinstance(v.v, (str, int, bool)):
        return Const(str(v.v))
    if isinstance(v, Sym):
        if v.typ == 'str':
            return v
        return Sym(('app', 'str', v.term), 'str')
    if isinstance(v, Inst):
        m = v.cls.lookup('__str__') or v.cls.lookup('__repr__')
    return Sym(('app', 'str', I.freeze(v)), 'str')


@nat('builtins.type')
def _type(I, args, kw):
    if len(args) != 1:
        return I.unk('type()')
    return M.type_of(I, args[0])


@nat('builtins.isinstance')
def _isinstance(I, args, kw):
    return M.isinstance_(I, args[0], args[1])


@nat('builtins.issubclass')
def _issubclass(I, args, kw):
    return M.issub(I, args[0], args[1])


@nat('builtins.hasattr')
def _hasattr(I, args, kw):
    v, n = args
    if isinstance(v, Unk) or not isinstance(n, Const):
        return Unk('hasattr')
    if isinstance(v, Inst):
        return Const(n.v in v.attrs or v.cls.lookup(n.v) is not None)
    if isinstance(v, Const):
        return Const(hasattr(v.v, n.v))
    if isinstance(v, (PyList, TupleV)):
        return Const(hasattr([] if isinstance(v, PyList) and v.pytype == 'list' else (), n.v))
    if isinstance(v, PySet):
        return Const(hasattr(set(), n.v))
    if isinstance(v, PyDict):
        return Const(hasattr({}, n.v))
    if isinstance(v, Arr):
        return Const(n.v in ARRM or n.v in ('shape', 'ndim', 'dtype', 'T', 'size', '__len__', '__iter__',
                                            '__getitem__', '__array__') or n.v in REDUCTIONS)
    if isinstance(v, Sym):
        if v.typ in ('int', 'float', 'num', 'bool'):
            return Const(hasattr(1.0, n.v))
        if v.typ == 'str':
            return Const(hasattr('', n.v))
        return Sym(('app', 'hasattr', v.term, K(n.v)), 'bool')
    return Unk('hasattr')


@nat('builtins.getattr')
def _getattr(I, args, kw):
    v, n = args[0], args[1]
    if isinstance(n, Const) and isinstance(n.v, str):
        if len(args) == 3:
            from .interp import AbsRaise
            try:
                return I.getattr(v, n.v)
            except AbsRaise as e:
                if e.exc.name != 'AttributeError':
                    raise
                return args[2]
        return I.getattr(v, n.v)
    return I.unk('getattr with computed name')


@nat('builtins.setattr')
def _setattr(I, args, kw):
    if isinstance(args[1], Const):
        I.setattr(args[0], args[1].v, args[2])
        return Const(None)
    if isinstance(args[0], Heap):
        I.mutate(args[0], 'setattr')
    return Const(None)


@nat('builtins.callable')
def _callable(I, args, kw):
    v = args[0]
    if isinstance(v, (FuncV, BoundV, Nat, NatMeth, UserFunc, ClassV, StaticV)):
        return Const(True)
    if isinstance(v, (Const, PyList, TupleV, Arr, PyDict, PySet, SliceV)):
        return Const(False)
    if isinstance(v, Inst):
        return Const(v.cls.lookup('__call__') is not None)
    return Unk('callable')


@nat('builtins.slice')
def _slice(I, args, kw):
    a = list(args)
    if len(a) == 1:
        return SliceV(Const(None), a[0], Const(None))
    if len(a) == 2:
        return SliceV(a[0], a[1], Const(None))
    return SliceV(*a)


@nat('builtins.id', 'builtins.hash')
def _id(I, args, kw):
    return Sym(('app', 'hash', I.freeze(args[0])), 'int')


@nat('builtins.print')
def _print(I, args, kw):
    return Const(None)


@nat('builtins.round')
def _round(I, args, kw):
    if all(isinstance(a, Const) for a in args):
        try:
            return Const(round(*[a.v for a in args]))
        except TypeError:
            I.raise_('TypeError')
    if isinstance(args[0], Arr):
        return I.unk('round')
    return Sym(('app', 'round') + tuple(I.freeze(a) for a in args), 'num')


@nat('builtins.pow')
def _pow(I, args, kw):
    return I.binop('Pow', args[0], args[1])


@nat('builtins.divmod')
def _divmod(I, args, kw):
    return TupleV([I.binop('FloorDiv', args[0], args[1]), I.binop('Mod', args[0], args[1])])


@nat('builtins.next')
def _next(I, args, kw):
    v = args[0]
    if isinstance(v, PyList) and v.pytype == 'iter':
        return next_of(I, v, args[1] if len(args) > 1 else None)
    t, items = I.seq_of(v)
    if isinstance(v, Unk) or (items is None and t is None):
        return Unk('next')
    if items is not None:
        if items:
            return items[0]
        if len(args) > 1:
            return args[1]
        I.raise_('StopIteration')
    return Unk('next')


def next_of(I, v, default=None):
    """the first of the items left of an iterator, which it gives up"""
    t, items = I.seq_of(v)
    if items is not None:
        if items:
            v.items, v.term = list(items[1:]), None
            return items[0]
        if default is not None:
            return default
        I.raise_('StopIteration')
    if not I.decide(T.lt(K(0), T.length(t))):
        if default is not None:
            return default
        I.raise_('StopIteration')
    r = I.thaw(T.at(t, K(0)))
    v.term = T.slc(t, K(1), NONE, NONE)
    return r


@nat('builtins.chr', 'builtins.ord', 'builtins.cmp', 'builtins.raw_input', 'builtins.dir',
     'builtins.input', 'builtins.format', 'builtins.bin',
     'builtins.memoryview', 'builtins.bytearray', 'builtins.complex', 'builtins.__import__')
def _opaque(I, args, kw):
    return Unk('builtin')


@nat('builtins.open', 'builtins.file', 'io.open', 'codecs.open')
def _open(I, args, kw):
    return textmodel.open_(I, args, kw)


@nat('csv.reader')
def _csvreader(I, args, kw):
    return textmodel.reader(I, args, kw)


@nat('csv.writer')
def _csvwriter(I, args, kw):
    return textmodel.writer(I, args, kw)


@nat('builtins.object')
def _object(I, args, kw):
    return Unk('object()')


@nat('builtins.property')
def _property(I, args, kw):
    return PropV(args[0] if args else kw.get('fget'), args[1] if len(args) > 1 else kw.get('fset'))


@nat('builtins.staticmethod')
def _static(I, args, kw):
    return StaticV(args[0], 'staticmethod')


@nat('builtins.classmethod')
def _classm(I, args, kw):
    return StaticV(args[0], 'classmethod')


@nat('functools.partial')
def _partial(I, args, kw):
    from .interp import PartialV
    return PartialV(args[0], args[1:], kw)


@nat('contextlib.contextmanager')
def _ctxmanager(I, args, kw):
    from .interp import CtxFunc
    return CtxFunc(args[0])


@nat('contextlib.closing')
def _closing(I, args, kw):
    return TupleV(args, 'closing')


@nat('functools.wraps')
def _wraps(I, args, kw):
    return Nat('identity')


NATS['identity'] = lambda I, a, k: a[0]


@nat('copy.copy')
def _copycopy(I, args, kw):
    v = args[0]
    if isinstance(v, Arr):
        return M.copyarr(I, v)
    if isinstance(v, PyList):
        return tolist_value(I, v)
    if isinstance(v, PyDict):
        return _dict(I, [v], {})
    if isinstance(v, PySet):
        return mkset(I, [v], v.frozen)
    if isinstance(v, (Const, Sym, TupleV)):
        return v
    if isinstance(v, Inst):
        m = v.cls.lookup('__copy__')
        if m is not None:
            return I.call(BoundV(m, v), [], {})
        return I.new(Inst(v.cls, dict(v.attrs)))
    return Unk('copy')


@nat('copy.deepcopy')
def deepcopy(I, args, kw):
    v = args[0]
    if isinstance(v, PyList):
        if v.items is None:
            return I.mkseq(v.term, v.pytype)
        return I.new(PyList([deepcopy(I, [x], {}) for x in v.items]))
    if isinstance(v, TupleV):
        return TupleV([deepcopy(I, [x], {}) for x in v.items])
    if isinstance(v, Inst):
        m = v.cls.lookup('__deepcopy__')
        if m is not None:
            return I.call(BoundV(m, v), [Const(None)], {})
        return I.new(Inst(v.cls, {k: deepcopy(I, [x], {}) for k, x in v.attrs.items()}))
    return _copycopy(I, [v], kw)


@nat('operator.itemgetter')
def _itemgetter(I, args, kw):
    return UserFunc('itemgetter', lambda I2, a, k: I2.getitem(a[0], args[0]))


for _op, _b in [('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('div', 'Div'), ('pow', 'Pow'),
                ('and_', 'BitAnd'), ('or_', 'BitOr'), ('floordiv', 'FloorDiv'), ('mod', 'Mod'), ('truediv', 'Div')]:
    NATS['operator.' + _op] = (lambda b: lambda I, a, k: I.binop(b, a[0], a[1]))(_b)
for _op, _b in [('eq', '=='), ('ne', '!='), ('lt', '<'), ('gt', '>'), ('le', '<='), ('ge', '>='), ('is_', 'is')]:
    NATS['operator.' + _op] = (lambda b: lambda I, a, k: I.compare(b, a[0], a[1]))(_b)
NATS['operator.neg'] = lambda I, a, k: I.unop('USub', a[0])
NATS['operator.getitem'] = lambda I, a, k: I.getitem(a[0], a[1])


def itprod(I, args, kw):
    """itertools.product"""
    ts = []
    for a in args:
        t = I.seqterm_of(a)
        if t is None:
            return I.new(PyList(None, ('opq', T.fresh())))
        ts.append(I.facts.norm(t))
    if kw:
        return I.new(PyList(None, ('opq', T.fresh())))
    if all(t[0] == 'lst' for t in ts):
        import itertools
        return I.new(PyList([TupleV([I.thaw(x) for x in c]) for c in itertools.product(*[t[1:] for t in ts])]))
    bases = []
    f = ['tup']
    for t in ts:
        j = T.fresh_j()
        bases.append((j, T.length(t)))
        f.append(T.at(t, ('j', j)))
    return I.mkseq(T.comp(tuple(bases), tuple(f), TRUE))


NATS['itertools.product'] = itprod


@nat('itertools.chain')
def _chain(I, args, kw):
    out = I.new(PyList([]))
    for a in args:
        I.list_extend(out, a)
    return out


@nat('itertools.repeat')
def _repeat(I, args, kw):
    if len(args) == 2:
        n = int_of(I, args[1])
        if n is not None and T.isint(n):
            return I.new(PyList([args[0]] * n[2]))
    return Unk('repeat')


@nat('warnings.warn', 'sys.stdout.write', 'sys.stderr.write', 'sys.stdout.flush', 'warnings.simplefilter',
     'warnings.filterwarnings', 'warnings.resetwarnings', 'np.random.seed')
def _nothing(I, args, kw):
    return Const(None)


ERRNAMES = ('divide', 'over', 'under', 'invalid')


def set_err(I, kw):
    """the floating point error state of numpy"""
    for k, v in kw.items():
        for n in ERRNAMES if k == 'all' else (k,):
            if n in ERRNAMES and not (isinstance(v, Const) and v.v is None):
                I.errstate[n] = I.freeze(v)


def err_dict(I):
    return I.new(PyDict([(K(n), Const(n), I.thaw(I.errstate[n])) for n in ERRNAMES]))


@nat('np.seterr')
def _seterr(I, args, kw):
    old = err_dict(I)
    kw = dict(kw)
    for k, v in zip(('all',) + ERRNAMES, args):
        kw[k] = v
    if '**' in kw:
        return I.unk('seterr with unknown arguments')
    set_err(I, dict((k, kw[k]) for k in ('all',) + ERRNAMES if k in kw))
    return old


@nat('np.geterr')
def _geterr(I, args, kw):
    return err_dict(I)


@nat('np.errstate')
def _errstate(I, args, kw):
    return TupleV([I.new(PyDict([(K(k), Const(k), v) for k, v in kw.items() if k != 'call']))], 'errstate')


@nat('warnings.catch_warnings')
def _catchw(I, args, kw):
    return TupleV([], 'catch_warnings')


# ------------------------------------------------------------------ cflabel

@nat('cflabel.listmap')
def cf_listmap(I, args, kw):
    a = M.bind(I, args, kw, 'list1 list2 ignore_unmappable=False')
    L, Tm = I.seqterm_of(a[0]), I.seqterm_of(a[1])
    if L is None or Tm is None:
        return I.new(PyList(None, ('opq', T.fresh())))
    L, Tm = I.facts.norm(L), I.facts.norm(Tm)
    ig = I.truth(a[2])
    if Tm[0] == 'comp':
        b, f, q = T.opencomp(Tm)
    else:
        j = T.fresh_j()
        b, f, q = ((j, T.length(Tm)),), T.at(Tm, ('j', j)), TRUE
    isin = T.member(f, T.mkset(L))
    if ig:
        return I.mkseq(T.comp(b, T.pos(L, f), T.conj([q, isin])))
    if isin != TRUE and I.facts.query(isin) is not True:
        c = ('some', T.comp(b, T.conj([q, T.neg(isin)]), TRUE))
        if I.decide(c):
            I.raise_('KeyError')
    return I.mkseq(T.comp(b, T.pos(L, f), q))


@nat('cflabel.listmap_fill')
def cf_listmap_fill(I, args, kw):
    a = M.bind(I, args, kw, 'list1 list2 fill=None')
    L, Tm = I.seqterm_of(a[0]), I.seqterm_of(a[1])
    if L is None or Tm is None:
        return TupleV([I.new(PyList(None, ('opq', T.fresh()))), I.new(PyList(None, ('opq', T.fresh())))])
    L, Tm = I.facts.norm(L), I.facts.norm(Tm)
    fill = I.freeze(a[2])
    if Tm[0] == 'comp':
        b, f, q = T.opencomp(Tm)
        j = None
    else:
        j = T.fresh_j()
        b, f, q = ((j, T.length(Tm)),), T.at(Tm, ('j', j)), TRUE
    isin = T.member(f, T.mkset(L))
    idx = T.comp(b, T.ite(isin, T.pos(L, f), fill), q)
    j2 = T.fresh_j()
    e2 = T.at(Tm, ('j', j2))
    miss = T.comp(((j2, T.length(Tm)),), ('j', j2), T.neg(T.member(e2, T.mkset(L))))
    return TupleV([I.mkseq(idx), I.mkseq(miss)])


# ------------------------------------------------------------------ sequences' methods

def list_meth(I, o, name, args, kw):
    t, items = I.seq_of(o)
    if name == 'index':
        x = args[0]
        if items is not None:
            if not items:
                I.raise_('ValueError')
            # first equal item
            for i, y in enumerate(items):
                r = I.compare('==', x, y)
                if isinstance(r, Unk):
                    return Unk('index')
                if I.truth(r):
                    return Const(i)
            I.raise_('ValueError')
        k = I.freeze(x)
        t = I.facts.norm(t)
        m = T.member(k, t)
        if I.facts.query(m) is False:
            I.raise_('ValueError')
        if I.facts.query(m) is None:
            if not I.decide(m):
                I.raise_('ValueError')
        return I.num(I.facts.norm(T.pos(t, k)), 'int')
    if name == 'count':
        if items is not None:
            n = 0
            for y in items:
                r = I.compare('==', args[0], y)
                if isinstance(r, Unk):
                    return Unk('count')
                if I.truth(r):
                    n += 1
            return Const(n)
        if t is not None and I.facts.uniq(t):
            k = I.freeze(args[0])
            return Const(1) if I.decide(T.member(k, t)) else Const(0)
        return Sym(('app', 'count', t if t is not None else ('opq', T.fresh()), I.freeze(args[0])), 'int')
    if name == '__getitem__':
        return I.getitem(o, args[0])
    if name == '__len__':
        return _len(I, [o], {})
    if name == '__contains__':
        return I.contains(o, args[0])
    if isinstance(o, PyList) and o.pytype == 'iter' and name in ('next', '__next__'):
        return next_of(I, o)
    if not isinstance(o, PyList) or o.pytype != 'list':
        I.raise_('AttributeError')
    if name == 'append':
        I.list_append(o, args[0])
        return Const(None)
    if name == 'extend':
        I.list_extend(o, args[0])
        return Const(None)
    if name == 'insert':
        I.mutate(o, 'insert')
        if o.items is not None and isinstance(args[0], Const):
            o.items.insert(args[0].v, args[1])
        else:
            i = int_of(I, args[0])
            base = I.seqterm_of(o)
            if i is not None:
                o.items, o.term = None, T.cat(T.slc(base, NONE, i, NONE), ('lst', I.freeze(args[1])),
                                              T.slc(base, i, NONE, NONE))
            else:
                o.items, o.term = None, ('opq', T.fresh())
        return Const(None)
    if name == 'pop':
        I.mutate(o, 'pop')
        i = args[0] if args else Const(-1)
        if o.items is not None and isinstance(i, Const):
            try:
                return o.items.pop(i.v)
            except IndexError:
                I.raise_('IndexError')
        k = int_of(I, i)
        base = I.seqterm_of(o)
        o.items = None
        if k is not None:
            r = I.thaw(T.at(base, k))
            o.term = T.cat(T.slc(base, NONE, k, NONE), T.slc(base, T.padd(k, K(1)), NONE, NONE)) \
                if k != K(-1) else T.slc(base, NONE, K(-1), NONE)
            return r
        o.term = ('opq', T.fresh())
        return Unk('pop')
    if name == 'remove':
        I.mutate(o, 'remove')
        if o.items is not None:
            for i, y in enumerate(o.items):
                r = I.compare('==', args[0], y)
                if not isinstance(r, Unk) and I.truth(r):
                    del o.items[i]
                    return Const(None)
            I.raise_('ValueError')
        k = I.freeze(args[0])
        base = I.facts.norm(o.term)
        m = T.member(k, base)
        if I.facts.query(m) is not True and not I.decide(m):
            I.raise_('ValueError')
        p = T.pos(base, k)
        o.items, o.term = None, T.cat(T.slc(base, NONE, p, NONE), T.slc(base, T.padd(p, K(1)), NONE, NONE))
        return Const(None)
    if name == 'sort':
        I.mutate(o, 'sort')
        if 'key' in kw or 'cmp' in kw or args:
            r = sorted_key(I, [o], kw)
            o.items, o.term = r.items, r.term
            return Const(None)
        t2, it2 = sort_term(I, o, revterm(I, kw))
        o.items, o.term = it2, t2
        return Const(None)
    if name == 'reverse':
        I.mutate(o, 'reverse')
        if o.items is not None:
            o.items.reverse()
        else:
            o.term = T.slc(o.term, NONE, NONE, K(-1))
        return Const(None)
    if name in ('copy',):
        return tolist_value(I, o)
    if name == '__setitem__':
        I.setitem(o, args[0], args[1])
        return Const(None)
    I.raise_('AttributeError')


def set_meth(I, o, name, args, kw):
    t = I.facts.norm(o.term)
    if name in ('intersection', 'union', 'difference'):
        for a in args:
            b = set_term(I, a)
            if name == 'intersection':
                t = T.inter(t, b)
            elif name == 'union':
                t = T.union(t, b)
            else:
                t = ('union', ()) if t == b else ('diff', t, b)
        return I.new(PySet(t, o.frozen))
    if name in ('issubset', 'issuperset'):
        b = set_term(I, args[0])
        x, y = (t, b) if name == 'issubset' else (b, t)
        return I.bool_(TRUE if x == y else ('app', 'subset', x, y))
    if name == 'copy':
        return I.new(PySet(t, o.frozen))
    if name in ('add', 'update', 'discard', 'remove', 'intersection_update', 'difference_update', 'clear'):
        I.mutate(o, name)
        if name == 'add':
            o.term = T.union(t, T.mkset(('lst', I.freeze(args[0]))))
        elif name == 'update':
            for a in args:
                o.term = T.union(o.term, set_term(I, a))
        elif name == 'intersection_update':
            for a in args:
                o.term = T.inter(o.term, set_term(I, a))
        elif name == 'difference_update':
            for a in args:
                o.term = ('diff', o.term, set_term(I, a))
        elif name == 'clear':
            o.term = ('union', ())
        else:
            o.term = ('diff', t, T.mkset(('lst', I.freeze(args[0]))))
        return Const(None)
    if name == 'symmetric_difference':
        b = set_term(I, args[0])
        return I.new(PySet(T.union(('diff', t, b), ('diff', b, t)) if t != b else ('union', ())))
    if name == '__contains__':
        return I.contains(o, args[0])
    return I.unk('set method %s' % name)


def dict_meth(I, o, name, args, kw):
    if name == '__getitem__':
        return I.getitem(o, args[0])
    if name == '__contains__':
        return I.contains(o, args[0])
    if name == 'get':
        default = args[1] if len(args) > 1 else Const(None)
        k = I.freeze(args[0])
        if o.entries is not None:
            for e in o.entries:
                if e[0] == k:
                    return e[2]
            if T.isk(k) and all(T.isk(e[0]) for e in o.entries):
                return default
            for e in o.entries:
                if I.decide(T.eq(k, e[0])):
                    return e[2]
            return default
        if o.term and o.term[0] == 'dcomp':
            present, v = M.dict_lookup(I, o, args[0])
            if I.decide(present):
                return v
            return default
        return Unk('dict get')
    if name in ('keys', 'iterkeys'):
        t, items = I.seq_of(o)
        if items is not None:
            return I.new(PyList(items))
        return I.mkseq(t)
    if name in ('values', 'itervalues'):
        if o.entries is not None:
            return I.new(PyList([e[2] for e in o.entries]))
        if o.term and o.term[0] == 'dcomp':
            b, k, v, p = o.term[1:]
            if I.distinct(T.comp(b, k, p))[0] == 'slist':
                return I.new(PyList(None, ('opq', T.fresh())))          # a key may be assigned again
            return I.mkseq(T.comp(b, v, p))
        return I.new(PyList(None, ('opq', T.fresh())))
    if name in ('items', 'iteritems'):
        if o.entries is not None:
            return I.new(PyList([TupleV([e[1], e[2]]) for e in o.entries]))
        if o.term and o.term[0] == 'dcomp':
            b, k, v, p = o.term[1:]
            if I.distinct(T.comp(b, k, p))[0] == 'slist':
                return I.new(PyList(None, ('opq', T.fresh())))
            return I.mkseq(T.comp(b, ('tup', k, v), p))
        return I.new(PyList(None, ('opq', T.fresh())))
    if name == 'has_key':
        return I.contains(o, args[0])
    if name == 'copy':
        return _dict(I, [o], {})
    if name in ('pop', 'update', 'setdefault', 'clear', 'popitem'):
        I.mutate(o, name)
        if name == 'clear':
            o.entries, o.term = [], None
            return Const(None)
        if name == 'pop' and o.entries is not None:
            k = I.freeze(args[0])
            for e in o.entries:
                if e[0] == k:
                    o.entries = [x for x in o.entries if x is not e]
                    return e[2]
            if T.isk(k) and all(T.isk(e[0]) for e in o.entries):
                if len(args) > 1:
                    return args[1]
                I.raise_('KeyError')
        if name == 'setdefault' and o.entries is not None:
            k = I.freeze(args[0])
            for e in o.entries:
                if e[0] == k:
                    return e[2]
            if all(T.isk(e[0]) for e in o.entries) and T.isk(k) or not o.entries:
                v = args[1] if len(args) > 1 else Const(None)
                o.entries = o.entries + [(k, args[0], v)]
                return v
        if name == 'update' and o.entries is not None:
            src = args[0] if args else None
            if src is None or (isinstance(src, PyDict) and src.entries is not None):
                es = list(src.entries) if src is not None else []
                es += [(K(k), Const(k), v) for k, v in kw.items()]
                for e in es:
                    o.entries = [x for x in o.entries if x[0] != e[0]] + [e]
                return Const(None)
            d = M.dict_from_pairs(I, src)
            if not o.entries:
                o.entries, o.term = d.entries, d.term
                return Const(None)
        o.entries, o.term = None, ('opq', T.fresh())
        return Unk('dict ' + name)
    return I.unk('dict method %s' % name)


def scalar_meth(I, o, name, args, kw):
    r = I.h5.strmeth(I, o, name, args, kw)
    if r is not None:
        return r
    if isinstance(o, Const) and isinstance(o.v, str):
        if name == 'join':
            t, items = I.seq_of(args[0])
            if items is not None and all(isinstance(x, Const) and isinstance(x.v, str) for x in items):
                return Const(o.v.join(x.v for x in items))
            return Sym(('app', 'join', K(o.v), I.freeze(args[0])), 'str')
        if all(isinstance(a, Const) for a in args) and hasattr(str, name) and not kw:
            try:
                r = getattr(o.v, name)(*[a.v for a in args])
            except Exception as e:
                I.raise_(type(e).__name__)
            if isinstance(r, list):
                return I.new(PyList([Const(x) for x in r]))
            if isinstance(r, tuple):
                return TupleV([Const(x) for x in r])
            return Const(r)
        if name in ('replace', 'ljust', 'rjust', 'strip', 'lower', 'upper', 'format'):
            return Sym(('app', 'str.' + name, K(o.v)) + tuple(I.freeze(a) for a in args), 'str')
        return I.unk('str method %s' % name)
    if isinstance(o, Const):
        if name in ('copy', 'astype', 'item'):
            return o
        if hasattr(o.v, name):
            return I.unk('scalar method %s' % name)
        I.raise_('AttributeError')
    if isinstance(o, Sym):
        if name in ('copy', 'item'):
            return o
        if name in ('any', 'all'):
            return I.bool_(I.truth_term(o))
        if name in REDUCTIONS and o.typ in ('int', 'float', 'num', 'any'):
            return o
        return Sym(('app', '.' + name, o.term) + tuple(I.freeze(a) for a in args), 'any')
    return I.unk('scalar method %s' % name)


def slice_indices(I, s, n):
    n = int_of(I, n)
    ts = [None if isinstance(x, Const) and x.v is None else int_of(I, x) for x in (s.a, s.b, s.c)]
    none = [isinstance(x, Const) and x.v is None for x in (s.a, s.b, s.c)]
    if n is None or any(t is None and not z for t, z in zip(ts, none)):
        if n is not None and all(isinstance(x, (Const, Sym)) for x in (s.a, s.b, s.c)):
            return sliced(I, s, n)
        return Unk('slice.indices')
    if all(z or T.isint(t) for t, z in zip(ts, none)) and T.isint(n):
        r = slice(*[None if z else t[2] for t, z in zip(ts, none)]).indices(n[2])
        return TupleV([Const(x) for x in r])
    step = K(1) if none[2] else ts[2]
    if step == K(1):
        a = K(0) if none[0] else ts[0]
        b = n if none[1] else ts[1]
        out = []
        for x, z in ((a, none[0]), (b, none[1])):
            if z:
                out.append(I.num(x))
                continue
            if I.facts.query(T.lt(x, K(0))) or (I.facts.query(T.lt(x, K(0))) is None and I.decide(T.lt(x, K(0)))):
                x = T.padd(x, n)
                if not I.decide(T.le(K(0), x)):
                    x = K(0)
            elif not I.decide(T.le(x, n)):
                x = n
            out.append(I.num(x))
        return TupleV(out + [Const(1)])
    if step == K(-1) and none[0] and none[1]:
        return TupleV([I.num(T.psub(n, K(1))), Const(-1), Const(-1)])
    return sliced(I, s, n)


def sliced(I, s, n):
    """start, stop and step as they are: range(*them) is a slice of range(n)"""
    t = (n,) + tuple(I.freeze(x) for x in (s.a, s.b, s.c))
    return TupleV([Sym(('sidx', i) + t, 'int') for i in range(3)])


# ------------------------------------------------------------------ numpy creation

def dtype_arg(I, args, kw, pos):
    if 'dtype' in kw:
        return kw['dtype']
    if len(args) > pos:
        return args[pos]
    return None


@nat('np.asarray', 'np.asanyarray', 'np.ascontiguousarray')
def np_asarray(I, args, kw):
    v = args[0]
    d = dtype_arg(I, args, kw, 1)
    k = M.kind_of_dtype(I, d)
    if isinstance(v, Arr):
        if k is None:
            return v
        kk = I.kindof(v)
        if isinstance(k, F) and kk == k and len(k) == 1 and k <= (BOOL | OBJ):
            return v
        if k == v.buf.kind:
            return v
        r = M.copyarr(I, v, k)
        r.buf.content = castc(I, v, k)
        r.maybe = v
        return r
    a = M.asarr(I, v)
    if a is None:
        if isinstance(v, Inst) and isinstance(v.attrs.get('x'), Arr):
            return M.copyarr(I, v.attrs['x'], k)
        return Unk('array of %s' % type(v).__name__)
    if k is not None:
        a.buf.kind = k
    return a


def castc(I, a, k):
    cur = I.kindof(a)
    kk = I.facts.kind(k)
    c = a.buf.content
    if cur == kk or (cur <= (BOOL | INT) and kk == INEXACT) or (cur <= BOOL and kk == INT) or k == a.buf.kind \
            or cur == INEXACT and kk == INEXACT:
        return c
    return ('castc', c, tuple(sorted(kk)))


@nat('np.array')
def np_array(I, args, kw):
    v = args[0]
    d = dtype_arg(I, args, kw, 1)
    copy = kw.get('copy', args[2] if len(args) > 2 else Const(True))
    k = M.kind_of_dtype(I, d)
    if isinstance(v, Arr):
        if isinstance(copy, Const) and not copy.v and k is None:
            return v
        if isinstance(copy, Const) and not copy.v:
            return np_asarray(I, [v], {'dtype': d})
        r = M.copyarr(I, v, k)
        if k is not None:
            r.buf.content = castc(I, v, k)
        return r
    a = M.asarr(I, v)
    if a is None:
        if isinstance(v, Inst) and isinstance(v.attrs.get('x'), Arr):
            return M.copyarr(I, v.attrs['x'], k)
        return Unk('array of %s' % type(v).__name__)
    if k is not None:
        a.buf.kind = k
    return a


@nat('np.copy')
def np_copy(I, args, kw):
    v = args[0]
    if isinstance(v, Arr):
        return M.copyarr(I, v)
    return np_array(I, [v], {})


def shape_dims(I, s):
    """dims for a shape argument"""
    if isinstance(s, (TupleV, PyList)):
        t, items = I.seq_of(s)
        if items is None:
            return None
    elif isinstance(s, (Const, Sym)):
        if isinstance(s, Const) and not isinstance(s.v, int):
            return None
        items = [s]
    else:
        return None
    dims = []
    for x in items:
        if isinstance(x, Sym) and x.hint is not None:
            dims.append(x.hint)
        elif isinstance(x, Sym):
            t = I.facts.norm(x.term)
            if t[0] == 'len' and t[1][0] in ('lab', 'seq', 'slc', 'cat', 'comp', 'srt', 'perm', 'slist'):
                dims.append(t[1])
            else:
                dims.append(('pos', t))
        elif isinstance(x, Const) and isinstance(x.v, int):
            dims.append(ONE if x.v == 1 else ('pos', K(int(x.v))))
        else:
            return None
    return dims


def creator(content, defkind):
    def f(I, args, kw):
        shape = args[0] if args else kw.get('shape')
        d = dtype_arg(I, args, kw, 1)
        k = M.kind_of_dtype(I, d)
        dims = shape_dims(I, shape) if shape is not None else None
        if dims is None:
            return Unk('array creation')
        c = content if content is not None else ('opqc', ('empty', T.fresh()))
        if k is None:
            k = defkind
        elif c[0] == 'kc':
            c = ('kc', K({1: 1, 0: 0}[int(c[1][2])]) if not (k == BOOL) else K(bool(c[1][2])))
        return I.mkarr(dims, c, k)
    return f


NATS['np.zeros'] = creator(('kc', K(0.0)), INEXACT)
NATS['np.ones'] = creator(('kc', K(1.0)), INEXACT)
NATS['np.empty'] = creator(None, INEXACT)
NATS['np.ndarray'] = creator(None, INEXACT)


def like(content):
    def f(I, args, kw):
        v = args[0]
        if isinstance(v, Inst) and isinstance(v.attrs.get('x'), Arr):
            v = v.attrs['x']
        if not isinstance(v, Arr):
            return Unk('like')
        k = M.kind_of_dtype(I, dtype_arg(I, args, kw, 1))
        c = content if content is not None else ('opqc', T.fresh())
        return I.mkarr(v.dims, c, v.buf.kind if k is None else k)
    return f


NATS['np.zeros_like'] = like(('kc', K(0)))
NATS['np.ones_like'] = like(('kc', K(1)))
NATS['np.empty_like'] = like(None)


@nat('np.full')
def np_full(I, args, kw):
    dims = shape_dims(I, args[0])
    if dims is None:
        return Unk('full')
    v = M.asarr(I, args[1])
    k = M.kind_of_dtype(I, dtype_arg(I, args, kw, 2))
    if v is None:
        return Unk('full')
    return I.mkarr(dims, v.buf.content, v.buf.kind if k is None else k)


@nat('np.arange')
def np_arange(I, args, kw):
    kw = dict(kw)
    d = kw.pop('dtype', None)
    a = list(args)
    if 'start' in kw or 'stop' in kw or 'step' in kw:
        st = kw.get('start', a[0] if a else Const(0))
        sp = kw.get('stop', a[1] if len(a) > 1 else None)
        step = kw.get('step', Const(1))
        ts = [x.term if isinstance(x, Sym) else (I.freeze(x) if x is not None else NONE) for x in (st, sp, step)]
        return I.mkarr((('pos', ('len', ('opq', T.fresh()))),), ('sv', ('arange',) + tuple(ts)), I.newkind())
    l = _range(I, a, {})
    t = I.seqterm_of(l)
    hint = a[0].hint if len(a) == 1 and isinstance(a[0], Sym) else None
    k = M.kind_of_dtype(I, d)
    return I.mkarr((hint if hint is not None else ('pos', T.length(t)),), ('sv', t), INT if k is None else k)


# ------------------------------------------------------------------ numpy functions

@nat('np.isscalar')
def np_isscalar(I, args, kw):
    v = args[0]
    if isinstance(v, Const):
        return Const(isinstance(v.v, (int, float, bool, str, complex)))
    if isinstance(v, Sym):
        if v.typ in ('int', 'float', 'num', 'bool', 'str'):
            return Const(True)
        return Sym(('app', 'isscalar', v.term), 'bool')
    if isinstance(v, Unk):
        return Unk('isscalar')
    return Const(False)


@nat('np.issubdtype')
def np_issubdtype(I, args, kw):
    return M.issubdtype(I, args[0], args[1])


@nat('np.dtype')
def np_dtype(I, args, kw):
    k = M.kind_of_dtype(I, args[0])
    return DtypeV(k if k is not None else INEXACT)


@nat('np.isneginf', 'np.isposinf')
def np_isninf(I, args, kw):
    return M.ew(I, 'isinf', args[:1])


def maskarr(I, m, arr):
    ma = M.asarr(I, m)
    return ma


@nat('np.putmask')
def np_putmask(I, args, kw):
    a, m, v = M.bind(I, args, kw, 'a mask values')
    if not isinstance(a, Arr):
        if isinstance(a, Inst):
            I.raise_('TypeError')
        return Const(None)
    I.mutate(a.buf, 'putmask')
    I.event('store', buf=M.root(a.buf), dims=a.dims, index=m, value=v)
    ma = M.asarr(I, m)
    if isinstance(v, Inst) and isinstance(v.attrs.get('x'), Arr):
        v = v.attrs['x']
    va = M.asarr(I, v)
    vk = I.kindof(va) if va is not None else ALLKINDS
    ak = I.kindof(a)
    if vk == INEXACT and not (ak & (INEXACT | OBJ)):
        # numpy refuses the unsafe cast
        if ak <= (INT | BOOL | STR):
            I.raise_('TypeError')
    elif vk == INEXACT and ak != INEXACT and not isinstance(v, (Sym,)):
        if I.decide(('kindin', a.buf.kind, INEXACT | OBJ)) is False:
            I.raise_('TypeError')
    if ma is None or va is None:
        a.buf.content = ('opqc', T.fresh())
        return Const(None)
    mc, vc = ma.buf.content, va.buf.content
    for x, nm in ((ma, 'mask'), (va, 'values')):
        if not x.dims:
            continue
        off = len(a.dims) - len(x.dims)
        for k, d in enumerate(x.dims):
            if k + off >= 0 and M.dim_compat(I, a.dims[k + off], d) is None and not M.uniform(x.buf.content):
                I.event('misalign', what='putmask ' + nm, d1=a.dims[k + off], d2=d)
                if nm == 'mask':
                    mc = ('mis', mc, d, a.dims[k + off])
                else:
                    vc = ('mis', vc, d, a.dims[k + off])
    new = M.wherec(mc, vc, a.buf.content)
    if M.same_extent(I, a):
        a.buf.content = new
    else:
        a.buf.content = ('upd', a.buf.content, M.region_of(I, a), new)
    return Const(None)


@nat('np.copyto')
def np_copyto(I, args, kw):
    a, v = args[0], args[1]
    if isinstance(a, Arr):
        if 'where' in kw:
            return np_putmask(I, [a, kw['where'], v], {})
        M.store(I, a, Const(Ellipsis), v)
    return Const(None)


@nat('np.where')
def np_where(I, args, kw):
    if len(args) == 1:
        return np_nonzero(I, args, kw)
    m, x, y = args
    arrs = [M.asarr(I, v) for v in args]
    if any(a is None for a in arrs):
        live = [v for v in args if isinstance(v, Arr)]
        return M.unkarr(I, live[0]) if live else Unk('where')
    dims, cs = M.broadcast(I, arrs, 'where')
    kx, ky = I.kindof(arrs[1]), I.kindof(arrs[2])
    kind = arrs[1].buf.kind if arrs[1].buf.kind == arrs[2].buf.kind else (
        INEXACT if INEXACT in (kx, ky) and (kx | ky) <= (INEXACT | INT | BOOL) else I.newkind())
    nd = [a for a in arrs if a.dims]
    if len(nd) == 1 and nd[0].buf.content[0] == 'sv' and nd[0] is arrs[0] and arrs[1].buf.content[0] == 'kc' \
            and arrs[2].buf.content[0] == 'kc':
        S = nd[0].buf.content[1]
        j = T.fresh_j()
        return I.mkarr(dims, ('sv', T.comp(((j, T.length(S)),), T.ite(T.at(S, ('j', j)), cs[1][1], cs[2][1]), TRUE)), kind)
    return M.result(I, dims, M.wherec(*cs), kind)


@nat('np.nonzero', 'np.flatnonzero')
def np_nonzero(I, args, kw):
    a = args[0] if isinstance(args[0], Arr) else M.asarr(I, args[0])
    if a is None:
        return Unk('nonzero')
    if len(a.dims) == 1:
        S = I.seqterm(a)
        if S is None:
            return TupleV([Unk('nonzero')])
        if S[0] == 'vals' or I.kindof(a) == BOOL:
            return TupleV([I.seqarr(T.where(S), INT)])
        j = T.fresh_j()
        S2 = T.comp(((j, T.length(S)),), T.neg(T.eq(T.at(S, ('j', j)), K(0))), TRUE)
        return TupleV([I.seqarr(T.where(S2), INT)])
    n = len(a.dims)
    u = T.fresh()
    cnt = ('len', ('opq', u))
    return TupleV([I.mkarr((('anon', u, cnt),), ('coords', a.buf.content, k, a.dims), INT) for k in range(n)])


NATS['np.flatnonzero'] = lambda I, a, k: (lambda r: r.items[0] if isinstance(r, TupleV) else r)(np_nonzero(I, a, k)) \
    if isinstance(a[0], Arr) and len(a[0].dims) == 1 else I.unk('flatnonzero')


def arr_anyall(I, v, name):
    c = v.buf.content
    if c[0] == 'kc':
        q = I.truth_term(I.thaw(c[1]))
        # any/all of an empty array: False / True
        if q == TRUE and name == 'all' or q == FALSE and name == 'any':
            return I.bool_(q)
    return Sym(('app', name, c), 'bool')


# name used by the analysis for reductions over values (missing aware or not)
REDUCTIONS = {'sum': 'sum', 'prod': 'prod', 'product': 'prod', 'mean': 'mean', 'median': 'median', 'std': 'std',
              'var': 'var', 'max': 'max', 'min': 'min', 'amax': 'max', 'amin': 'min', 'any': 'any', 'all': 'all',
              'argmax': 'argmax', 'argmin': 'argmin', 'ptp': 'ptp', 'nansum': 'nansum', 'nanmax': 'nanmax',
              'nanmin': 'nanmin', 'alltrue': 'all', 'sometrue': 'any', 'count_nonzero': 'count_nonzero',
              'average': 'mean'}
BNRED = {k: k for k in ('nansum', 'nanmean', 'nanmedian', 'nanstd', 'nanvar', 'nanmin', 'nanmax', 'nanargmin',
                        'nanargmax', 'median', 'ss', 'anynan', 'allnan')}


def red(I, op, args, kw, default_axis=None):
    """reduction along axis (None = all)"""
    v = args[0]
    if isinstance(v, Inst) and isinstance(v.attrs.get('x'), Arr):
        m = v.cls.lookup(op)
        if m is not None and op in ('any', 'all', 'sum', 'mean', 'max', 'min'):
            return I.call(BoundV(m, v), args[1:], kw)
        v = v.attrs['x']
    if isinstance(v, (PyList, TupleV)) and op in ('any', 'all'):
        return anyall(I, v, op)
    if isinstance(v, (PyList, TupleV)) and op == 'prod':
        t, items = I.seq_of(v)
        if items is not None:
            acc = Const(1)
            for x in items:
                acc = I.binop('Mult', acc, x)
            return acc
    a = M.asarr(I, v)
    if a is None:
        return Unk('reduction %s' % op)
    axis = kw.get('axis', args[1] if len(args) > 1 else Const(default_axis))
    extras = tuple((k, I.freeze(x)) for k, x in sorted(kw.items()) if k not in ('axis', 'out', 'dtype', 'keepdims'))
    extras += tuple(('arg%d' % i, I.freeze(x)) for i, x in enumerate(args[2:]))
    ax = M.axis_of(I, a, axis) if not isinstance(axis, TupleV) else 'unknown'
    if ax == 'unknown':
        return Unk('reduction along unknown axis')
    kind = BOOL if op in ('any', 'all', 'anynan', 'allnan') else (
        INEXACT if 'mean' in op or 'std' in op or 'var' in op or 'median' in op else
        (INT if op.startswith('arg') or op == 'count_nonzero' else
         (a.buf.kind if I.kindof(a) != BOOL else INT)))
    c = a.buf.content
    if ax is None:
        axes = tuple(a.dims)
        dims = ()
    else:
        axes = (a.dims[ax],)
        dims = a.dims[:ax] + a.dims[ax + 1:]
    if op in ('any', 'all') and not dims:
        return arr_anyall(I, a, op)
    if c[0] == 'kc' and op in ('max', 'min', 'nanmax', 'nanmin', 'mean', 'nanmean', 'median'):
        rc = c
    else:
        rc = ('red', op, c, tuple(sorted((I.facts.norm(d) for d in axes), key=repr)), extras)
    kd = kw.get('keepdims')
    if isinstance(kd, Const) and kd.v:
        dims = tuple(ONE if (ax is None or k == ax) else d for k, d in enumerate(a.dims))
    return M.result(I, dims, rc, kind)


def scan(I, op, args, kw):
    v = args[0]
    a = M.asarr(I, v)
    if a is None:
        return Unk(op)
    axis = kw.get('axis', args[1] if len(args) > 1 else Const(None))
    ax = M.axis_of(I, a, axis)
    kind = INT if I.kindof(a) == BOOL else a.buf.kind
    if ax == 'unknown':
        return M.unkarr(I, a)
    if ax is None:
        if len(a.dims) == 1:
            ax = 0
        else:
            return I.mkarr((('flat', tuple(a.dims)),), ('scan', op, a.buf.content, tuple(a.dims)), kind)
    out = kw.get('out')
    r = I.mkarr(a.dims, ('scan', op, a.buf.content, I.facts.norm(a.dims[ax])), kind)
    if isinstance(out, Arr):
        M.write_all(I, out, r.buf.content, kind, op + ' out=')
        return out
    return r


for _n in ('cumsum', 'cumprod', 'cumproduct'):
    NATS['np.' + _n] = (lambda n: lambda I, a, k: scan(I, n, a, k))(_n)
    ARRM[_n] = (lambda n: lambda I, o, a, k: scan(I, n, [o] + a, k))(_n)


def bnmove(I, name, args, kw):
    a = M.asarr(I, args[0])
    if a is None:
        return Unk(name)
    window = kw.get('window', args[1] if len(args) > 1 else None)
    axis = kw.get('axis', args[2] if len(args) > 2 else Const(-1))
    ax = M.axis_of(I, a, axis)
    if window is None:
        I.raise_('TypeError')
    w = I.freeze(window)
    extra = tuple((k, I.freeze(x)) for k, x in sorted(kw.items()) if k not in ('axis', 'window', 'method'))
    if ax in ('unknown', None):
        return M.unkarr(I, a)
    n = T.length(I.facts.norm(a.dims[ax]))
    # bottleneck rejects windows outside 1..n
    if I.facts.query(T.le(K(1), w)) is False or I.facts.query(T.le(w, n)) is False:
        I.raise_('ValueError')
    for c in (T.le(K(1), w), T.le(w, n)):
        if I.facts.query(c) is None and not I.decide(c):
            I.raise_('ValueError')
    return I.mkarr(a.dims, ('move', name, a.buf.content, I.facts.norm(a.dims[ax]), w, extra), INEXACT)


@nat('bn.nanrankdata', 'bn.rankdata')
def bn_rank(I, args, kw):
    a = M.asarr(I, args[0])
    if a is None:
        return Unk('rank')
    axis = kw.get('axis', args[1] if len(args) > 1 else Const(None))
    ax = M.axis_of(I, a, axis)
    if ax in ('unknown', None):
        return M.unkarr(I, a)
    return I.mkarr(a.dims, ('scan', 'nanrank', a.buf.content, I.facts.norm(a.dims[ax])), INEXACT)


@nat('bn.replace')
def bn_replace(I, args, kw):
    a, old, new = M.bind(I, args, kw, 'arr old new')
    if isinstance(a, Arr):
        I.mutate(a.buf, 'bn.replace')
        oc, nc = M.asarr(I, old), M.asarr(I, new)
        if oc is None or nc is None:
            a.buf.content = ('opqc', T.fresh())
            return Const(None)
        c = a.buf.content
        m = M.ewc('isnan', [c]) if oc.buf.content == ('kc', K(float('nan'))) else M.ewc('equal', [c, oc.buf.content])
        a.buf.content = M.wherec(m, nc.buf.content, c)
    return Const(None)


# -------------------- shape manipulation

def move_axis(dims, src, start):
    """numpy.rollaxis"""
    n = len(dims)
    axis = src % n if src < 0 else src
    if start < 0:
        start += n
    if axis < start:
        start -= 1
    axes = list(range(n))
    axes.remove(axis)
    axes.insert(start, axis)
    return axes


def constint(I, v):
    if isinstance(v, Const) and isinstance(v.v, int):
        return int(v.v)
    if isinstance(v, Sym):
        t = I.facts.norm(v.term)
        if T.isint(t):
            return t[2]
    return None


def aslar(v):
    if isinstance(v, Inst) and isinstance(v.attrs.get('x'), Arr):
        return v.attrs['x']
    return v


@nat('np.rollaxis')
def np_rollaxis(I, args, kw):
    a, axis, start = M.bind(I, args, kw, 'a axis start=0')
    a = aslar(a)
    x, s = constint(I, axis), constint(I, start)
    if not isinstance(a, Arr) or x is None or s is None:
        return Unk('rollaxis')
    n = len(a.dims)
    if not -n <= x < n or not -n <= s <= n:
        I.raise_('ValueError')
    return Arr(a.buf, [a.dims[k] for k in move_axis(a.dims, x, s)])


def swapax(I, a, x, y):
    x, y = constint(I, x), constint(I, y)
    if not isinstance(a, Arr) or x is None or y is None:
        return Unk('swapaxes')
    n = len(a.dims)
    if not (-n <= x < n and -n <= y < n):
        I.raise_('ValueError')
    d = list(a.dims)
    d[x], d[y] = d[y], d[x]
    return Arr(a.buf, d)


NATS['np.swapaxes'] = lambda I, a, k: swapax(I, aslar(a[0]), k.get('axis1', a[1] if len(a) > 1 else None),
                                             k.get('axis2', a[2] if len(a) > 2 else None))
ARRM['swapaxes'] = lambda I, o, a, k: swapax(I, o, *a)


def transpose(I, a, axes):
    if not axes or (len(axes) == 1 and isinstance(axes[0], Const) and axes[0].v is None):
        return Arr(a.buf, tuple(reversed(a.dims)))
    if len(axes) == 1 and isinstance(axes[0], (TupleV, PyList)):
        t, items = I.seq_of(axes[0])
        if items is None:
            return Unk('transpose')
        axes = items
    ks = [constint(I, x) for x in axes]
    n = len(a.dims)
    if any(k is None for k in ks):
        return Unk('transpose')
    if len(ks) != n:
        I.raise_('ValueError')
    if sorted(k % n for k in ks) != list(range(n)):
        I.raise_('ValueError')
    return Arr(a.buf, [a.dims[k] for k in ks])


NATS['np.transpose'] = lambda I, a, k: transpose(I, aslar(a[0]), a[1:] or ([k['axes']] if 'axes' in k else [])) \
    if isinstance(aslar(a[0]), Arr) else Unk('transpose')
ARRM['transpose'] = lambda I, o, a, k: transpose(I, o, a or ([k['axes']] if 'axes' in k else []))


@nat('np.expand_dims')
def np_expand(I, args, kw):
    a, axis = M.bind(I, args, kw, 'a axis')
    x = constint(I, axis)
    a = M.asarr(I, aslar(a))
    if a is None or x is None:
        return Unk('expand_dims')
    if x < 0:
        x = x + len(a.dims) + 1
    d = list(a.dims)
    d.insert(x, ONE)
    return Arr(a.buf, d)


def is_len1(I, d):
    """True / False / None"""
    d = I.facts.norm(d)
    if d == ONE:
        return True
    return I.facts.query(T.eq(T.length(d), K(1)))


def squeeze(I, a, axis=None):
    if axis is not None and not (isinstance(axis, Const) and axis.v is None):
        k = M.axis_of(I, a, axis)
        if k in ('unknown', None):
            return Unk('squeeze')
        q = is_len1(I, a.dims[k])
        if q is None:
            q = I.decide(T.eq(T.length(I.facts.norm(a.dims[k])), K(1)))
        if not q:
            I.raise_('ValueError')
        return unaxis(I, a, [k])
    out = []
    for k, d in enumerate(a.dims):
        q = is_len1(I, d)
        if q is None:
            q = I.decide(T.eq(T.length(I.facts.norm(d)), K(1)))
        if q:
            out.append(k)
    return unaxis(I, a, out)


def unaxis(I, a, gone):
    """view of `a` without some axes of length one; which coordinate of the
    original axis is left is part of the content"""
    dims = [d for k, d in enumerate(a.dims) if k not in gone]
    pins = [I.facts.norm(a.dims[k]) for k in gone]
    pins = [d for d in pins if d[0] in ('lst', 'slc', 'comp')]
    if not pins:
        return Arr(a.buf, dims)
    c = M.pin(I, a.buf.content, [(d, K(0)) for d in pins])
    return M.view(I, a, dims, c, [(d, ('int', K(0))) for d in pins])


NATS['np.squeeze'] = lambda I, a, k: squeeze(I, aslar(a[0]), k.get('axis', a[1] if len(a) > 1 else None)) \
    if isinstance(aslar(a[0]), Arr) else Unk('squeeze')
ARRM['squeeze'] = lambda I, o, a, k: squeeze(I, o, k.get('axis', a[0] if a else None))


@nat('np.atleast_1d')
def np_atleast(I, args, kw):
    a = M.asarr(I, args[0])
    if a is None:
        return Unk('atleast_1d')
    return a if a.dims else I.mkarr((ONE,), a.buf.content, a.buf.kind)


class IxV(V):
    def __init__(self, seqs):
        self.seqs = seqs


@nat('np.ix_')
def np_ix(I, args, kw):
    n = len(args)
    out = []
    for k, a in enumerate(args):
        if isinstance(a, Arr):
            S, kd = I.seqterm(a), a.buf.kind
            if S is not None and I.kindof(a) == BOOL:
                S, kd = T.where(S), INT
        else:
            S, kd = I.seqterm_of(a), INT
            if isinstance(a, (PyList, TupleV)):
                S2, items = I.seq_of(a)
                if items is not None and items and all(isinstance(x, Const) and isinstance(x.v, bool) for x in items):
                    S = ('lst',) + tuple(K(i) for i, x in enumerate(items) if x.v)
        if S is None:
            return Unk('ix_')
        dims = [ONE] * n
        dims[k] = ('pos', T.length(S))
        out.append(I.mkarr(dims, ('sv', S), kd))
    return TupleV(out)


def order_of(I, args, kw, pos):
    o = kw.get('order', args[pos] if len(args) > pos else Const('C'))
    if isinstance(o, Const):
        return o.v or 'C'
    return None


def layout(I, a, o):
    """order 'K' or 'A': the order of an array of the caller is not known"""
    if o not in ('K', 'A'):
        return o
    if len([d for d in a.dims if d != ONE]) < 2:
        return 'C'
    if M.root(a.buf).origin is None:
        return None
    return 'F' if I.decide(('app', 'fortran', I.facts.norm(a.buf.content), tuple(a.dims))) else 'C'


def flatdim(I, dims, order):
    nd = [d for d in dims if d != ONE]
    if len(nd) == 0:
        return ONE
    if len(nd) == 1:
        return nd[0]
    return ('flat', tuple(nd) if order == 'C' else tuple(reversed(nd)))


def unflat(dims):
    out = []
    for d in dims:
        if d == ONE:
            continue
        if d[0] == 'flat':
            out.extend(d[1])
        else:
            out.append(d)
    return out


def reshape(I, a, shape, order):
    """new dims when every new axis is a product of consecutive old axes"""
    order = layout(I, a, order)
    if order not in ('C', 'F'):
        return Unk('reshape order')
    if len(shape) == 1 and isinstance(shape[0], (TupleV, PyList)):
        t, items = I.seq_of(shape[0])
        if items is None:
            return Unk('reshape')
        shape = items
    old = unflat(a.dims) if order == 'C' else unflat(list(reversed(a.dims)))
    # flat dims store C nesting order; in F order a flat dim reversed
    if order == 'F':
        old = []
        for d in reversed(a.dims):
            if d == ONE:
                continue
            if d[0] == 'flat':
                old.extend(d[1])
            else:
                old.append(d)
    want = [int_of(I, x) for x in shape]
    hints = [x.hint if isinstance(x, Sym) else None for x in shape]
    if any(w is None for w in want):
        return Unk('reshape')
    if order == 'F':
        want, hints = want[::-1], hints[::-1]
    lens = [I.facts.norm(T.length(I.facts.norm(d))) for d in old]
    # resolve -1
    total = K(1)
    for l in lens:
        total = T.pmul(total, l)
    out = []
    i = 0
    ok = True
    negs = [k for k, w in enumerate(want) if w == K(-1)]
    for k, w in enumerate(want):
        if w == K(-1):
            # everything not consumed by later requests
            rest = [x for x in want[k + 1:]]
            j = len(old)
            for r in reversed(rest):
                if r == K(1):
                    continue
                acc = K(1)
                while j > i and acc != r:
                    j -= 1
                    acc = T.pmul(acc, lens[j])
                if acc != r:
                    ok = False
                    break
            if not ok:
                break
            grp = old[i:j]
            i = j
            out.append(ONE if not grp else (grp[0] if len(grp) == 1 else ('flat', tuple(grp))))
            continue
        if w == K(1):
            out.append(ONE)
            continue
        grp = []
        acc = K(1)
        h = hints[k]
        while i < len(old):
            if grp and acc == w:
                break
            grp.append(old[i])
            acc = T.pmul(acc, lens[i])
            i += 1
            if acc == w:
                break
        if acc != w:
            ok = False
            break
        out.append(grp[0] if len(grp) == 1 else ('flat', tuple(grp)))
    if ok and i == len(old):
        if order == 'F':
            out = out[::-1]
        return out
    # the cells are put, in their order, on the same axes in another order
    if all(h is not None for h in hints) and len(a.dims) == 1 and a.dims[0][0] == 'flat':
        hs = [I.facts.norm(h) for h in hints]
        ds = [h for h in hs if h != ONE]
        if sorted(ds, key=repr) == sorted(old, key=repr) and len(set(ds)) == len(ds):
            return ('other', hs[::-1] if order == 'F' else hs,
                    ('mis', a.buf.content, ('flat', tuple(old)), ('flat', tuple(ds))))
    # splitting an axis: data of a plain 1-d sequence into given shape
    dims = shape_dims(I, TupleV(shape))
    if len(old) == 1 and a.buf.content[0] == 'sv' and dims is not None and K(-1) not in want:
        return ('split', dims)
    if dims is None or K(-1) in want:
        n = len(want)
        dims = [('anon', T.fresh(), ('len', ('opq', T.fresh()))) for _ in range(n)]
    return ('opaque', dims)


def do_reshape(I, a, shape, order, copy=False):
    order = layout(I, a, order)
    r = reshape(I, a, shape, order)
    if isinstance(r, Unk):
        return r
    if isinstance(r, tuple):
        if r[0] == 'other':
            return I.mkarr(r[1], r[2], a.buf.kind)
        if r[0] == 'split':
            return I.mkarr(r[1], ('resh', a.buf.content, tuple(I.facts.norm(d) for d in a.dims),
                                  tuple(I.facts.norm(d) for d in r[1]), order), a.buf.kind)
        return I.mkarr(r[1], ('opqc', T.fresh()), a.buf.kind)
    if copy:
        return I.mkarr(r, a.buf.content, a.buf.kind)
    if len([d for d in r if d != ONE]) == len([d for d in a.dims if d != ONE]):
        return Arr(a.buf, r)
    b = Arr(a.buf, r)
    return b


@nat('np.reshape')
def np_reshape(I, args, kw):
    a = M.asarr(I, aslar(args[0]))
    if a is None:
        return Unk('reshape')
    return do_reshape(I, a, [args[1] if len(args) > 1 else kw['newshape']], order_of(I, args, kw, 2))


@arrm('reshape')
def m_reshape(I, o, args, kw):
    return do_reshape(I, o, args or [kw.get('shape', Unk(''))], order_of(I, [], kw, 9))


@nat('np.ravel')
def np_ravel(I, args, kw):
    a = M.asarr(I, aslar(args[0]))
    if a is None:
        return Unk('ravel')
    o = layout(I, a, order_of(I, args, kw, 1))
    if o is None:
        return I.mkarr((('flat', tuple(a.dims)),), ('opqc', T.fresh()), a.buf.kind)
    return Arr(a.buf, (flatdim2(I, a.dims, o),))


def flatdim2(I, dims, order):
    ds = unflat(dims) if order == 'C' else unflat2(dims)
    if not ds:
        return ONE
    return ds[0] if len(ds) == 1 else ('flat', tuple(ds))


def unflat2(dims):
    out = []
    for d in reversed(list(dims)):
        if d == ONE:
            continue
        if d[0] == 'flat':
            out.extend(d[1])
        else:
            out.append(d)
    return out


@arrm('ravel')
def m_ravel(I, o, args, kw):
    return np_ravel(I, [o] + args, kw)


@arrm('flatten')
def m_flatten(I, o, args, kw):
    od = order_of(I, args, kw, 0)
    if isinstance(kw.get('order', args[0] if args else None), Sym):
        s = kw.get('order', args[0] if args else None)
        od = 'C' if I.decide(T.eq(s.term, K('C'))) else ('F' if I.decide(T.eq(s.term, K('F'))) else None)
    if od is None:
        I.raise_('TypeError')
    if od not in ('C', 'F', 'A', 'K'):
        I.raise_('TypeError')
    od = layout(I, o, od)
    if od is None:
        return I.mkarr((('flat', tuple(o.dims)),), ('opqc', T.fresh()), o.buf.kind)
    return I.mkarr((flatdim2(I, o.dims, od),), o.buf.content, o.buf.kind)


# -------------------- array methods

@arrm('copy', '__copy__', '__deepcopy__')
def m_copy(I, o, args, kw):
    return M.copyarr(I, o)


@arrm('astype')
def m_astype(I, o, args, kw):
    d = kw.get('dtype', args[0] if args else None)
    k = M.kind_of_dtype(I, d)
    if k is None:
        k = INEXACT
    r = M.copyarr(I, o, k)
    cur = I.kindof(o)
    if isinstance(k, F) and k <= (INEXACT | INT) and cur & (STR | OBJ):
        # converting strings / objects may fail
        if not I.decide(('kindin', o.buf.kind, INEXACT | INT | BOOL)):
            if not I.decide(('app', 'convertible', o.buf.content, tuple(sorted(k)))):
                I.raise_('ValueError')
    if cur == INEXACT and isinstance(k, F) and k <= (INT | BOOL) and \
            T.contains(o.buf.content, lambda t: t and t[0] == 'X') and \
            not (o.buf.content[0] == 'ew' and o.buf.content[1] in ('floor', 'ceil', 'rint', 'round', 'trunc', 'sign')):
        I.event('castloss', what='astype', dkind=k)
    r.buf.content = castc(I, o, k)
    return r


@arrm('view')
def m_view(I, o, args, kw):
    if not args and not kw:
        return Arr(o.buf, o.dims)
    return I.unk('array view with dtype')


def take(I, a, idx, axis, kw):
    if isinstance(axis, Const) and axis.v is None:
        if len(a.dims) == 1:
            ax = 0
        else:
            return I.unk('take from flattened array')
    else:
        ax = M.axis_of(I, a, axis)
    if ax == 'unknown':
        return Unk('take')
    if isinstance(idx, (Const, Sym)):
        i = int_of(I, idx)
        sel = [('slice', NONE, NONE, NONE)] * len(a.dims)
        sel[ax] = ('int', i)
        r = M.do_index(I, a, sel)
        if isinstance(r, Arr):
            return M.copyarr(I, r)
        return r
    if isinstance(idx, Arr):
        S = I.seqterm(idx)
        if S is not None and I.kindof(idx) == BOOL:
            # take with booleans: 0/1 positions
            I.event('boolindex', what='take')
            j = T.fresh_j()
            S = T.comp(((j, T.length(S)),), ('app', 'b2i', T.at(S, ('j', j))), TRUE)
    else:
        S = I.seqterm_of(idx)
    if S is None:
        return Unk('take')
    sel = [('slice', NONE, NONE, NONE)] * len(a.dims)
    sel[ax] = ('seq', I.facts.norm(S), (('pos', T.length(S)),))
    return M.do_index(I, a, sel)


@arrm('take')
def m_take(I, o, args, kw):
    idx = kw.get('indices', args[0] if args else None)
    axis = kw.get('axis', args[1] if len(args) > 1 else Const(None))
    return take(I, o, idx, axis, kw)


@nat('np.take')
def np_take(I, args, kw):
    a = M.asarr(I, aslar(args[0]))
    idx = kw.get('indices', args[1] if len(args) > 1 else None)
    axis = kw.get('axis', args[2] if len(args) > 2 else Const(None))
    return take(I, a, idx, axis, kw) if a is not None else Unk('take')


@nat('np.compress')
def np_compress(I, args, kw):
    cond, a = args[0], aslar(args[1])
    axis = kw.get('axis', args[2] if len(args) > 2 else Const(None))
    if not isinstance(a, Arr):
        return Unk('compress')
    return compress(I, a, cond, axis)


def compress(I, a, cond, axis):
    ax = M.axis_of(I, a, axis)
    if ax in ('unknown', None):
        return Unk('compress')
    c = M.asarr(I, cond)
    if c is None or len(c.dims) != 1:
        return Unk('compress')
    sel = [('slice', NONE, NONE, NONE)] * len(a.dims)
    sel[ax] = ('maskseq', I.seqterm(c), c)
    return M.do_index(I, a, sel)


ARRM['compress'] = lambda I, o, a, k: compress(I, o, a[0], k.get('axis', a[1] if len(a) > 1 else Const(None)))


@nat('np.delete')
def np_delete(I, args, kw):
    return I.unk('np.delete')


@arrm('fill')
def m_fill(I, o, args, kw):
    I.mutate(o.buf, 'fill')
    v = M.asarr(I, args[0])
    vk = I.kindof(v) if v is not None else ALLKINDS
    ak = I.kindof(o)
    if vk == INEXACT and not (ak & (INEXACT | OBJ)):
        I.event('castloss', what='fill', dkind=o.buf.kind)
    c = v.buf.content if v is not None else ('opqc', T.fresh())
    if M.same_extent(I, o):
        o.buf.content = c
    else:
        o.buf.content = ('upd', o.buf.content, M.region_of(I, o), c)
    return Const(None)


@arrm('tolist')
def m_tolist(I, o, args, kw):
    if len(o.dims) == 1:
        S = I.seqterm(o)
        if S is not None:
            return I.mkseq(I.facts.norm(S))
    if not o.dims:
        return M.scalar_from(I, o.buf.content, o.buf.kind)
    return I.new(PyList(None, ('nlist', o.buf.content, o.dims)))


@arrm('item')
def m_item(I, o, args, kw):
    if args:
        return I.unk('item')
    return Sym(('app', 'item', o.buf.content), 'any')


@arrm('argsort')
def m_argsort(I, o, args, kw):
    axis = kw.get('axis', args[0] if args else Const(-1))
    ax = M.axis_of(I, o, axis)
    if ax in ('unknown', None):
        return M.unkarr(I, o)
    if len(o.dims) == 1:
        S = I.seqterm(o)
        n = T.length(I.facts.norm(o.dims[0]))
        P = ('perm', T.rng(n), ('argsort', S if S is not None else o.buf.content))
        return I.mkarr((('pos', n),), ('sv', P), INT)
    return I.mkarr(o.dims, ('scan', 'argsort', o.buf.content, I.facts.norm(o.dims[ax])), INT)


NATS['np.argsort'] = lambda I, a, k: m_argsort(I, M.asarr(I, aslar(a[0])), a[1:], k) \
    if M.asarr(I, aslar(a[0])) is not None else Unk('argsort')


@nat('np.sort')
def np_sort(I, args, kw):
    a = M.asarr(I, aslar(args[0]))
    if a is None:
        return Unk('sort')
    axis = kw.get('axis', args[1] if len(args) > 1 else Const(-1))
    ax = M.axis_of(I, a, axis)
    if ax in ('unknown', None):
        return M.unkarr(I, a)
    if len(a.dims) == 1 and a.buf.content[0] == 'sv':
        return I.seqarr(T.srt(a.buf.content[1], FALSE), a.buf.kind)
    return I.mkarr(a.dims, ('scan', 'sort', a.buf.content, I.facts.norm(a.dims[ax])), a.buf.kind)


@arrm('sort')
def m_sort(I, o, args, kw):
    I.mutate(o.buf, 'sort')
    r = np_sort(I, [o] + args, kw)
    o.buf.content = r.buf.content if isinstance(r, Arr) else ('opqc', T.fresh())
    return Const(None)


@arrm('put', 'itemset', 'resize', 'setfield', 'byteswap', 'partition')
def m_mutator(I, o, args, kw):
    I.mutate(o.buf, 'in-place method')
    o.buf.content = ('opqc', T.fresh())
    return Const(None)


@nat('np.put', 'np.place', 'np.fill_diagonal')
def np_mut(I, args, kw):
    if isinstance(args[0], Arr):
        if len(args) == 3:
            I.mutate(args[0].buf, 'in-place function')
        args[0].buf.content = ('opqc', T.fresh())
        I.mutate(args[0].buf, 'in-place function')
    return Const(None)


@arrm('nonzero')
def m_nonzero(I, o, args, kw):
    return np_nonzero(I, [o], {})


def clip(I, a, lo, hi, out=None):
    r = a
    vals = []
    vlo, vhi = M.asarr(I, lo), M.asarr(I, hi)
    if vlo is None or vhi is None:
        return M.unkarr(I, a)
    dims, cs = M.broadcast(I, [a, vlo, vhi], 'clip')
    c = ('ew', 'clip', tuple(cs))
    r = I.mkarr(dims, c, a.buf.kind if I.kindof(vlo) <= I.kindof(a) else I.newkind())
    if isinstance(out, Arr):
        M.write_all(I, out, c, None, 'clip out=')
        return out
    return r


ARRM['clip'] = lambda I, o, a, k: clip(I, o, k.get('min', k.get('a_min', a[0] if a else Const(None))),
                                       k.get('max', k.get('a_max', a[1] if len(a) > 1 else Const(None))),
                                       k.get('out', a[2] if len(a) > 2 else None))
NATS['np.clip'] = lambda I, a, k: clip(I, aslar(a[0]), k.get('a_min', a[1] if len(a) > 1 else Const(None)),
                                       k.get('a_max', a[2] if len(a) > 2 else Const(None)),
                                       k.get('out', a[3] if len(a) > 3 else None)) \
    if isinstance(aslar(a[0]), Arr) else Unk('clip')


@arrm('dot')
def m_dot(I, o, args, kw):
    return np_dot(I, [o] + args, kw)


@nat('np.dot')
def np_dot(I, args, kw):
    a, b = M.asarr(I, aslar(args[0])), M.asarr(I, aslar(args[1]))
    if a is None or b is None:
        return Unk('dot')
    if not a.dims or not b.dims:
        return M.ew(I, 'multiply', [a, b])
    ka = a.dims[-1]
    kb = b.dims[-2] if len(b.dims) > 1 else b.dims[-1]
    r = M.dim_compat(I, ka, kb)
    bc = b.buf.content
    if r is None:
        I.event('misalign', what='dot', d1=ka, d2=kb)
        bc = ('mis', bc, kb, ka)
    dims = a.dims[:-1] + (b.dims[:-2] + b.dims[-1:] if len(b.dims) > 1 else ())
    return M.result(I, dims, ('dot', a.buf.content, bc, I.facts.norm(ka)), INEXACT)


@nat('np.concatenate')
def np_concatenate(I, args, kw):
    v = args[0]
    t, items = I.seq_of(v)
    axis = kw.get('axis', args[1] if len(args) > 1 else Const(0))
    if items is None:
        return Unk('concatenate')
    arrs = [M.asarr(I, aslar(x)) for x in items]
    if any(a is None for a in arrs) or not arrs:
        return Unk('concatenate')
    ax = M.axis_of(I, arrs[0], axis)
    if ax in ('unknown', None):
        return Unk('concatenate')
    n = len(arrs[0].dims)
    if any(len(a.dims) != n for a in arrs):
        I.raise_('ValueError')
    contents = [a.buf.content for a in arrs]
    dims = list(arrs[0].dims)
    for k in range(n):
        if k == ax:
            continue
        for i in range(1, len(arrs)):
            if M.dim_compat(I, arrs[0].dims[k], arrs[i].dims[k]) is None:
                I.event('misalign', what='concatenate', d1=arrs[0].dims[k], d2=arrs[i].dims[k])
                contents[i] = ('mis', contents[i], arrs[i].dims[k], arrs[0].dims[k])
    parts = [a.dims[ax] for a in arrs]
    if all(c[0] == 'sv' for c in contents) and n == 1:
        S = T.cat(*[c[1] for c in contents])
        return I.mkarr((('pos', T.length(S)),), ('sv', S), arrs[0].buf.kind)
    dims[ax] = T.cat(*parts) if not any(p == ONE or p[0] in ('pos', 'anon', 'free', 'flat', 'masked') for p in parts) \
        else ('anon', T.fresh(), sumlen(I, parts))
    kinds = set(a.buf.kind for a in arrs)
    kind = arrs[0].buf.kind if len(kinds) == 1 else I.newkind()
    c = contents[0] if len(set(contents)) == 1 else ('catc', I.facts.norm(dims[ax])) + tuple(
        (I.facts.norm(p), c) for p, c in zip(parts, contents))
    return I.mkarr(dims, c, kind)


def sumlen(I, parts):
    n = K(0)
    for p in parts:
        n = T.padd(n, T.length(I.facts.norm(p)))
    return n


@nat('np.vstack', 'np.hstack', 'np.column_stack', 'np.dstack', 'np.tile', 'np.repeat', 'np.roll', 'np.outer',
     'np.histogram', 'np.searchsorted', 'np.digitize', 'np.bincount', 'np.diff', 'np.linspace',
     'np.linalg.lstsq', 'np.corrcoef', 'np.cov', 'np.percentile', 'np.fromfunction', 'np.split')
def np_opaque(I, args, kw):
    return I.unk('numpy function without a model')


@nat('np.unique')
def np_unique(I, args, kw):
    a = M.asarr(I, aslar(args[0]))
    if a is None:
        return Unk('unique')
    nd = [d for d in a.dims if d != ONE]
    if a.buf.content[0] == 'sv' and len(nd) <= 1 and len(args) == 1 and not kw:
        S = a.buf.content[1]
        return I.seqarr(T.srt(T.mkset(S), FALSE), a.buf.kind)
    c = ('uniqc', a.buf.content, tuple(a.dims))
    u = I.mkarr((('anon', T.fresh(), ('len', ('opq', T.fresh()))),), c, a.buf.kind)
    flags = []
    kw = dict(kw)
    for k, n in enumerate(('return_index', 'return_inverse')):
        v = kw.pop(n, args[k + 1] if len(args) > k + 1 else Const(False))
        flags.append(I.truth(v))
    if kw or len(args) > 3:
        return I.unk('np.unique with %s' % ','.join(sorted(kw)))
    out = [u]
    if flags[0]:
        out.append(I.mkarr(u.dims, ('uniqix',) + c[1:], frozenset(['int'])))
    if flags[1]:
        d = a.dims[0] if len(a.dims) == 1 else ('flat', tuple(a.dims))
        out.append(I.mkarr((d,), ('uniqinv',) + c[1:], frozenset(['int'])))
    return u if len(out) == 1 else TupleV(out)


@nat('np.in1d')
def np_in1d(I, args, kw):
    a, b = M.asarr(I, args[0]), M.asarr(I, args[1])
    if a is None or b is None:
        return Unk('in1d')
    Sa, Sb = I.seqterm(a), I.seqterm(b)
    if Sa is None or Sb is None:
        return Unk('in1d')
    j = T.fresh_j()
    return I.mkarr(a.dims, ('sv', T.comp(((j, T.length(Sa)),), T.member(T.at(Sa, ('j', j)), T.mkset(Sb)), TRUE)), BOOL)


@nat('np.apply_along_axis')
def np_apply(I, args, kw):
    fn, axis, a = args[0], args[1], aslar(args[2])
    if not isinstance(a, Arr):
        return Unk('apply_along_axis')
    ax = M.axis_of(I, a, axis)
    if ax in ('unknown', None):
        return Unk('apply_along_axis')
    rest = [(k, d) for k, d in enumerate(a.dims) if k != ax]
    pins = [(d, ('slot', I.facts.norm(d))) for _, d in rest]
    sl = I.mkarr((a.dims[ax],), M.pin(I, a.buf.content, pins) if pins else a.buf.content, a.buf.kind)
    if a.buf.origin is not None:
        sl.buf.origin = a.buf.origin
    r = I.call(fn, [sl] + list(args[3:]), kw)

    def unpin(c):
        """drop the slot pins again"""
        if not isinstance(c, tuple):
            return c
        if c and c[0] == 'pin' and len(c) == 3:
            left = tuple(p for p in c[2] if not (p[1] and p[1][0] == 'slot'))
            inner = unpin(c[1])
            return ('pin', inner, left) if left else inner
        return tuple(unpin(x) for x in c)
    if isinstance(r, Arr):
        if len(r.dims) == 1:
            dims = list(a.dims)
            dims[ax] = r.dims[0]
            return I.mkarr(dims, unpin(r.buf.content), r.buf.kind)
        return Unk('apply_along_axis')
    if isinstance(r, Sym):
        t = r.term
        c = t[2] if t[0] == 'app' and t[1] == 'val' else ('perslice', unpin(t))
        if t[0] == 'truthc':
            c = t[1]
        kind = {'int': INT, 'float': INEXACT, 'bool': BOOL}.get(r.typ, I.newkind())
        return I.mkarr([d for _, d in rest], unpin(c), kind)
    if isinstance(r, Const):
        a2 = M.asarr(I, r)
        return I.mkarr([d for _, d in rest], a2.buf.content, a2.buf.kind) if a2 is not None else Unk('apply')
    return I.mkarr([d for _, d in rest], ('opqc', T.fresh()), I.newkind())


@nat('np.lib.stride_tricks.as_strided', 'as_strided')
def np_strided(I, args, kw):
    a = args[0]
    shape = kw.get('shape', args[1] if len(args) > 1 else None)
    strides = kw.get('strides', args[2] if len(args) > 2 else None)
    if not isinstance(a, Arr):
        return Unk('as_strided')
    ts, si = I.seq_of(shape) if shape is not None else (None, None)
    tt, ti = I.seq_of(strides) if strides is not None else (None, None)
    if si is None or ti is None or len(si) != len(ti):
        return Unk('as_strided')
    # recognise the rolling window: one extra axis repeating the stride of D
    ds = []
    for st in ti:
        if isinstance(st, Sym) and st.term[0] == 'stride':
            ds.append(st.term[1])
        else:
            return Unk('as_strided')
    if len(ds) == len(a.dims) + 1:
        for q in range(len(ds)):
            if tuple(ds[:q] + ds[q + 1:]) == tuple(a.dims) and ds[q] in ds[:q]:
                break
        else:
            return I.unk('as_strided pattern')
        D = ds[q]
        k = list(a.dims).index(D)
        n, w = int_of(I, si[k]), int_of(I, si[q])
        if n is None or w is None:
            return Unk('as_strided')
        rest = [x for i, x in enumerate(si) if i != q]
        for i, d in enumerate(a.dims):
            if i != k and I.facts.norm(T.length(I.facts.norm(d))) != int_of(I, rest[i]):
                return Unk('as_strided')
        dims = list(a.dims)
        dims[k] = ('win', I.facts.norm(D), n, w)
        dims.insert(q, ('wofs', I.facts.norm(D), w))
        return M.view(I, a, dims, ('window', a.buf.content, I.facts.norm(D), w))
    return I.unk('as_strided pattern')


# ------------------------------------------------------------------ random

def rand_call(I, name, args, kw):
    last = name.split('.')[-1]
    I.event('rng', name=name)
    if last == 'shuffle':
        v = args[0]
        if isinstance(v, PyList):
            I.mutate(v, 'shuffle')
            st = I.seqterm_of(v)
            v.items, v.term = None, ('perm', st, T.fresh())
        elif isinstance(v, Arr):
            I.mutate(v.buf, 'shuffle')
            if v.buf.content[0] == 'sv':
                v.buf.content = ('sv', ('perm', v.buf.content[1], T.fresh()))
            else:
                d = I.facts.norm(v.dims[0]) if v.dims else ONE
                v.buf.content = ('permc', v.buf.content, d, T.fresh())
        return Const(None)
    if last == 'permutation':
        v = args[0]
        if isinstance(v, Arr) and v.buf.content[0] == 'sv':
            return I.seqarr(('perm', v.buf.content[1], T.fresh()), v.buf.kind)
        if isinstance(v, (PyList, TupleV)):
            return I.seqarr(('perm', I.seqterm_of(v), T.fresh()))
        n = int_of(I, v)
        if n is not None:
            return I.seqarr(('perm', T.rng(n), T.fresh()), INT)
        return Unk('permutation')
    if last == 'RandomState':
        if not (args and not (isinstance(args[0], Const) and args[0].v is None)) and not kw:
            I.event('nondet', name='np.random.RandomState without a seed')
        return Nat('np.random.state')
    if last in ('rand', 'randn'):
        dims = shape_dims(I, TupleV(args))
        if not args:
            return Sym(('app', 'rng', K(T.fresh())), 'float')
        if dims is None:
            return Unk(last)
        return I.mkarr(dims, ('opqc', T.fresh()), INEXACT)
    if last in ('randint', 'random_integers'):
        lo, hi = (Const(0), args[0]) if len(args) == 1 else (args[0], args[1])
        if len(args) < 3 and 'size' not in kw:
            r = Sym(('sym', 'rng%d' % T.fresh(), 'int'), 'int')
            a, b = int_of(I, lo), int_of(I, hi)
            if a is not None and b is not None:
                I.facts.assume(T.le(a, r.term), True)
                # random.randint includes the upper end, numpy's does not
                I.facts.assume((T.le if name.startswith('random.') else T.lt)(r.term, b), True)
            return r
        size = args[2] if len(args) > 2 else kw.get('size')
        n, a, b = int_of(I, size), int_of(I, lo), int_of(I, hi)
        if n is not None and a is not None and b is not None and name.startswith('np.') and last == 'randint':
            return I.seqarr(('anon', ('draw', a, b, K(T.fresh())), n), INT)
        return Unk('randint')
    if last in ('sample', 'choice', 'random', 'uniform'):
        return Unk('rng value')
    return Unk(name)


@nat('datetime.date', 'datetime.datetime', 'datetime.time')
def _dt(I, args, kw):
    return Sym(('app', 'date') + tuple(I.freeze(a) for a in args), 'any')


# ------------------------------------------------------------------ numpy.testing
def assertion(I, name, a, b, extra):
    """compares two values, raises AssertionError if they differ"""
    from .interp import TypeOf
    if isinstance(a, PyList) and isinstance(b, PyList):
        if not I.truth(I.compare('==', a, b)):
            I.raise_('AssertionError')
        return Const(None)
    if isinstance(a, DtypeV) and isinstance(b, DtypeV) and a.kind == b.kind:
        return Const(None)
    if name == 'assert_almost_equal':
        ks = ALLKINDS if not isinstance(a, Arr) or not isinstance(b, Arr) else I.kindof(a) | I.kindof(b)
        if isinstance(a, Arr) and isinstance(b, Arr) and ks & (STR | OBJ) and I.decide(('app', 'no arithmetic', I.freeze(a), I.freeze(b))):
            I.raise_('TypeError')
    if isinstance(a, (ClassV, TypeOf, Nat)) or isinstance(b, (ClassV, TypeOf, Nat)):
        if not I.truth(I.compare('==', a, b)):
            I.raise_('AssertionError')
        return Const(None)
    if isinstance(a, (Unk, Inst)) or isinstance(b, (Unk, Inst)):
        if not I.decide(('app', name, ('opq', T.fresh()))):
            I.raise_('AssertionError')
        return Const(None)
    side = []
    for v in (a, b):
        v = v.kind if isinstance(v, DtypeV) else v.buf.content if isinstance(v, Arr) else I.freeze(v)
        side.append(v)
    if not I.decide(('app', name, tuple(sorted(side, key=repr)), extra)):
        I.raise_('AssertionError')
    return Const(None)


@nat('np.testing.assert_equal', 'np.testing.assert_array_equal')
def np_assert_equal(I, args, kw):
    return assertion(I, 'assert_equal', args[0], args[1], NONE)


@nat('np.testing.assert_almost_equal', 'np.testing.assert_array_almost_equal')
def np_assert_almost(I, args, kw):
    d = kw.get('decimal', args[2] if len(args) > 2 else Const(7))
    return assertion(I, 'assert_almost_equal', args[0], args[1], I.freeze(d))


@nat('np.may_share_memory')
def np_share(I, args, kw):
    a, b = [aslar(x) for x in args[:2]]
    if not isinstance(a, Arr) or not isinstance(b, Arr):
        return Unk('may_share_memory')
    return Const(M.root(a.buf) is M.root(b.buf))
