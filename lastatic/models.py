"""Abstract models of the builtins, numpy and bottleneck operations used by the
package.  Each model says: which memory the result shares, how the result's
axes are named, what its content is (as a term) and its dtype kind."""
from . import terms as T
from .terms import K, TRUE, FALSE, NONE
from .values import *
from .facts import ALLKINDS

F = frozenset
INEXACT, INT, BOOL, STR, OBJ = F(['inexact']), F(['int']), F(['bool']), F(['str']), F(['object'])

CANON = {'numpy': 'np', 'bottleneck': 'bn', 'h5py': 'h5py'}


def canon(name):
    parts = name.split('.')
    parts[0] = CANON.get(parts[0], parts[0])
    return '.'.join(parts)


CONSTS = {'np.nan': float('nan'), 'np.NaN': float('nan'), 'np.NAN': float('nan'),
          'np.inf': float('inf'), 'np.Inf': float('inf'), 'np.newaxis': None,
          'np.pi': 3.141592653589793, 'np.e': 2.718281828459045,
          'np.False_': False, 'np.True_': True,
          'sys.maxint': 2**63 - 1, 'os.sep': '/',
          'string.ascii_letters': 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ',
          'string.digits': '0123456789', 'np.__version__': '1.8.2'}

# type name -> dtype kinds it covers (issubdtype semantics); second item: does
# membership of the kind decide it completely?
TYPEKIND = {
    'builtins.float': (INEXACT, False), 'np.floating': (INEXACT, False), 'np.float64': (INEXACT, False),
    'np.float32': (INEXACT, False), 'np.float_': (INEXACT, False), 'np.double': (INEXACT, False),
    'np.inexact': (INEXACT, True), 'np.complexfloating': (INEXACT, False), 'builtins.complex': (INEXACT, False),
    'builtins.int': (INT, False), 'np.integer': (INT, True), 'np.int_': (INT, False),
    'np.int64': (INT, False), 'np.int32': (INT, False), 'np.signedinteger': (INT, False),
    'np.unsignedinteger': (INT, False), 'builtins.long': (INT, False),
    'builtins.bool': (BOOL, True), 'np.bool_': (BOOL, True), 'np.bool': (BOOL, True),
    'builtins.str': (STR, True), 'np.str_': (STR, True), 'np.string_': (STR, True), 'np.str': (STR, True),
    'np.bytes_': (STR, True),
    'builtins.object': (OBJ, True), 'np.object_': (OBJ, True), 'np.object': (OBJ, True),
    'np.number': (INEXACT | INT, True), 'np.unicode_': (F(['other']), False),
    'builtins.unicode': (F(['other']), False), 'np.datetime64': (F(['other']), False),
    'np.generic': (ALLKINDS, True), 'np.character': (STR, False), 'np.flexible': (STR, False),
    'np.float': (INEXACT, False), 'np.int': (INT, False),
}
SCODES = {'f': 'builtins.float', 'f8': 'builtins.float', 'float': 'builtins.float', 'float64': 'builtins.float',
          'i': 'builtins.int', 'i4': 'builtins.int', 'i8': 'builtins.int', 'int': 'builtins.int', 'int64': 'builtins.int',
          'bool': 'builtins.bool', '?': 'builtins.bool', 'O': 'builtins.object', 'object': 'builtins.object',
          'S': 'builtins.str', 'd': 'builtins.float', 'b': 'builtins.int', 'str': 'builtins.str'}


# which of the types that do not cover all floating point data cover one type
FLOATTYPES = {'complex': ('np.complexfloating', 'builtins.complex'), 'float32': ('np.floating', 'np.float32')}


def kind_of_dtype(I, d):
    """dtype kind for a dtype argument"""
    if d is None or (isinstance(d, Const) and d.v is None):
        return None
    if isinstance(d, Const) and isinstance(d.v, str):
        d = Nat(SCODES.get(d.v, 'x'))
    if isinstance(d, Nat) and d.name in TYPEKIND:
        return TYPEKIND[d.name][0]
    if isinstance(d, DtypeV):
        return d.kind
    if isinstance(d, Sym):
        return ('dk', d.term)
    return I.newkind()


# ---------------------------------------------------------------- helpers

def bind(I, args, kw, spec):
    """bind(args, kw, 'a axis=None') -> list of values"""
    names = []
    for s in spec.split():
        if '=' in s:
            n, d = s.split('=')
            names.append((n, {'None': Const(None), 'False': Const(False), 'True': Const(True)}.get(
                d, Const(d.strip("'")) if not d.lstrip('-').isdigit() else Const(int(d)))))
        else:
            names.append((s, None))
    out = []
    args = list(args)
    kw = dict(kw)
    if len(args) > len(names):
        I.raise_('TypeError')
    for i, (n, d) in enumerate(names):
        if i < len(args):
            out.append(args[i])
            kw.pop(n, None)
        elif n in kw:
            out.append(kw.pop(n))
        elif d is not None:
            out.append(d)
        else:
            I.raise_('TypeError')
    return out


def asarr(I, v):
    """np.asarray without copy for arrays; None when unknown"""
    if isinstance(v, Arr):
        return v
    if isinstance(v, Const):
        if isinstance(v.v, (int, float, bool, str, complex)) or v.v is None:
            k = {bool: BOOL, int: INT, float: INEXACT, complex: INEXACT, str: STR}.get(type(v.v), OBJ)
            return I.mkarr((), ('kc', K(v.v)), k)
        return None
    if isinstance(v, Sym):
        k = {'int': INT, 'float': INEXACT, 'num': INT | INEXACT, 'bool': BOOL, 'str': STR}.get(v.typ)
        return I.mkarr((), ('kc', v.term), k if k is not None else I.newkind())
    if isinstance(v, (PyList, TupleV)):
        t, items = I.seq_of(v)
        if items is not None:
            if len(items) == 0:
                return I.mkarr((('pos', K(0)),), ('sv', ('lst',)), INEXACT)
            if len(items) == 1 and isinstance(items[0], (Const, Sym)):
                a = asarr(I, items[0])
                if a is not None:
                    return I.mkarr((ONE,), a.buf.content, a.buf.kind)
            if all(isinstance(x, (Const, Sym)) for x in items):
                ks = set()
                for x in items:
                    ty = I.typ(x) if isinstance(x, Sym) else type(x.v).__name__
                    ks.add({'int': 'int', 'float': 'inexact', 'bool': 'bool', 'str': 'str'}.get(ty, '?'))
                kind = F(ks) if len(ks) == 1 and '?' not in ks else \
                    (INEXACT if ks <= {'int', 'inexact', 'bool'} else I.newkind())
                S = ('lst',) + tuple(I.freeze(x) for x in items)
                return I.mkarr((('pos', K(len(items))),), ('sv', S), kind)
            arrs = [asarr(I, x) if isinstance(x, (PyList, TupleV, Arr)) else None for x in items]
            if all(a is not None for a in arrs):
                n = K(len(items))
                return I.mkarr((('pos', n),) + arrs[0].dims,
                               ('stackc',) + tuple(a.buf.content for a in arrs), arrs[0].buf.kind)
            return None
        if t is not None:
            if t[0] == 'vals' and len(t) > 2:
                return I.mkarr((t[2],), t[1], I.newkind())
            if t[0] == 'nlist':
                return I.mkarr(t[2], t[1], I.newkind())
            return I.seqarr(t)
    if isinstance(v, Inst) and 'x' in v.attrs and isinstance(v.attrs['x'], Arr):
        # la objects have no __array__: numpy would iterate; keep 1d semantics
        return None
    return None


def axis_of(I, arr, axis):
    """normalised axis number, None (all axes) or 'unknown'"""
    if isinstance(axis, Const):
        if axis.v is None:
            return None
        if isinstance(axis.v, int):
            n = len(arr.dims)
            a = int(axis.v)
            if not -n <= a < n:
                I.raise_('ValueError')
            return a % n if n else 0
        I.raise_('TypeError')
    if isinstance(axis, Sym):
        t = I.facts.norm(axis.term)
        if T.isint(t):
            return axis_of(I, arr, Const(t[2]))
    return 'unknown'


def unkarr(I, arr):
    return I.mkarr(arr.dims, ('opqc', T.fresh()), I.newkind())


def copyarr(I, a, kind=None):
    return I.mkarr(a.dims, a.buf.content, a.buf.kind if kind is None else kind)


def scalar_from(I, content, kind):
    if content[0] == 'kc':
        return I.thaw(content[1])
    k = I.facts.kind(kind)
    typ = {INT: 'int', INEXACT: 'float', BOOL: 'bool', STR: 'str'}.get(k, 'any')
    t = ('app', 'val', content)
    if k == BOOL:
        t = ('truthc', content)
    return Sym(t, typ)


def result(I, dims, content, kind):
    """0-d results are numpy scalars"""
    dims = tuple(dims)
    if not dims:
        return scalar_from(I, content, kind)
    return I.mkarr(dims, content, kind)


# ---------------------------------------------------------------- elementwise

BOOLOPS = F(['equal', 'not_equal', 'less', 'greater', 'less_equal', 'greater_equal',
             'isnan', 'isfinite', 'isinf', 'logical_and', 'logical_or', 'logical_not', 'logical_xor',
             'signbit', 'isneginf', 'isposinf'])
FLOATOPS = F(['log', 'exp', 'sqrt', 'log2', 'log10', 'log1p', 'expm1', 'sin', 'cos', 'tan', 'arctan',
              'true_divide', 'ndtri', 'tanh', 'sinh', 'cosh', 'arcsin', 'arccos'])
UFUNC1 = {'abs', 'bitwise_not', 'log', 'exp', 'sqrt', 'sign', 'isnan', 'isfinite', 'isinf', 'absolute', 'negative',
          'logical_not', 'invert', 'floor', 'ceil', 'rint', 'log2', 'log10', 'log1p', 'expm1', 'square',
          'sin', 'cos', 'tan', 'tanh', 'reciprocal', 'fabs', 'conjugate', 'isreal', 'signbit', 'sinh',
          'cosh', 'arctan', 'arcsin', 'arccos', 'trunc', 'isneginf', 'isposinf'}
UFUNC2 = {'add', 'subtract', 'multiply', 'divide', 'true_divide', 'floor_divide', 'power', 'mod',
          'remainder', 'equal', 'not_equal', 'less', 'greater', 'less_equal', 'greater_equal',
          'logical_and', 'logical_or', 'logical_xor', 'bitwise_and', 'bitwise_or', 'bitwise_xor',
          'maximum', 'minimum', 'fmax', 'fmin', 'fmod', 'hypot', 'arctan2', 'left_shift', 'right_shift'}
ALIAS = {'abs': 'absolute', 'fabs': 'absolute', 'neg': 'negative', 'bitwise_and': 'bitand',
         'bitwise_or': 'bitor', 'bitwise_xor': 'bitxor', 'bitwise_not': 'invert', 'remainder': 'mod'}
COMMUT = F(['add', 'multiply', 'logical_and', 'logical_or', 'equal', 'not_equal', 'maximum', 'minimum',
            'logical_xor', 'bitand', 'bitor'])


def dim_compat(I, d1, d2):
    """None if incompatible, else the name of the combined axis"""
    d1, d2 = I.facts.norm(d1), I.facts.norm(d2)
    if d1 == d2:
        return d1
    if d1 == ONE:
        return d2
    if d2 == ONE:
        return d1
    f1 = d1[0] in ('pos', 'free', 'anon')
    f2 = d2[0] in ('pos', 'free', 'anon')
    if f1 and f2:
        return d1 if d1[0] == 'free' else d2
    if f1:
        return d2
    if f2:
        return d1
    if I.facts.query(T.eq(T.length(d1), K(1))):
        return d2
    if I.facts.query(T.eq(T.length(d2), K(1))):
        return d1
    return None


def uniform(c):
    return c[0] == 'kc'


def content_eq_dim(I, d1, d2, c1, c2):
    r = dim_compat(I, d1, d2)
    if r is None and uniform(c2):
        return d1
    if r is None and uniform(c1):
        return d2
    return r


def last_of(I, d, D):
    """is d the slice with the last element of D? (as long as D when D is empty, else broadcast)"""
    d = I.facts.norm(d)
    return d[0] == 'slc' and len(d) == 5 and d[2] == K(-1) and d[3] == NONE and d[4] in (NONE, K(1)) and \
        d[1] == I.facts.norm(D)


def broadcast(I, arrs, what):
    """common dims and per-operand contents"""
    n = max(len(a.dims) for a in arrs)
    dims = []
    contents = [a.buf.content for a in arrs]
    for k in range(n):
        cur = None
        curi = None
        for i, a in enumerate(arrs):
            p = k - (n - len(a.dims))
            if p < 0:
                continue
            d = a.dims[p]
            if cur is None:
                cur, curi = d, i
                continue
            if last_of(I, d, cur):
                contents[i] = pin(I, contents[i], [(cur, K(-1))])
                continue
            if last_of(I, cur, d):
                for q in range(i):
                    if arrs[q].dims and len(arrs[q].dims) >= n - k:
                        contents[q] = pin(I, contents[q], [(d, K(-1))])
                cur, curi = d, i
                continue
            r = content_eq_dim(I, cur, d, contents[curi], contents[i])
            if r is None:
                l1, l2 = T.length(I.facts.norm(cur)), T.length(I.facts.norm(d))
                q = I.facts.query(T.eq(l1, l2)) if l1 != l2 else True
                if q is False and not (T.isint(l1) and l1[2] == 1) and not (T.isint(l2) and l2[2] == 1):
                    I.event('shape', what=what, d1=cur, d2=d)
                I.event('misalign', what=what, d1=cur, d2=d)
                contents[i] = ('mis', contents[i], d, cur)
            else:
                if I.facts.norm(cur) == ONE and r != ONE:
                    curi = i
                cur = r
        dims.append(cur)
    return dims, contents


def inpl(I, name, kinds):
    ks = [I.facts.kind(k) for k in kinds]
    if name in BOOLOPS:
        return BOOL
    if name in FLOATOPS:
        return INEXACT
    if name in ('bitand', 'bitor', 'bitxor', 'invert') and all(k == BOOL for k in ks):
        return BOOL
    if any(k == INEXACT for k in ks) and all(k <= (INEXACT | INT | BOOL) for k in ks):
        return INEXACT
    if all(k == INT for k in ks):
        return INT
    if name in ('sign', 'absolute', 'negative', 'clip') and len(kinds) == 1:
        return kinds[0]
    # promoting with a scalar of a smaller kind keeps the kind
    sizes = {'bool': 0, 'int': 1, 'inexact': 2}
    for i, k in enumerate(kinds):
        if isinstance(k, tuple) and all(isinstance(o, frozenset) and o <= BOOL or o == k
                                        for o in kinds):
            return k
    return I.newkind()


def ew(I, name, vals, out=None):
    name = ALIAS.get(name, name)
    arrs = []
    for v in vals:
        if isinstance(v, Inst):
            # ufunc applied to a larry object
            x = v.attrs.get('x')
            if isinstance(x, Arr):
                v = x
        a = asarr(I, v)
        if a is None:
            arrs = None
            break
        arrs.append(a)
    if arrs is None:
        live = [v for v in vals if isinstance(v, Arr)]
        if live:
            return unkarr(I, live[0])
        return Unk('elementwise %s' % name)
    # 1-d sequences of positions stay sequences
    nd = [a for a in arrs if a.dims]
    dims, contents = broadcast(I, arrs, name)
    kind = inpl(I, name, [a.buf.kind for a in arrs])
    if name in ('bitand', 'bitor', 'invert', 'bitxor') and all(I.kindof(a) == BOOL for a in arrs):
        name = {'bitand': 'logical_and', 'bitor': 'logical_or', 'invert': 'logical_not',
                'bitxor': 'logical_xor'}[name]
    if name in ('isnan', 'isinf', 'isfinite') and I.kindof(arrs[0]) <= (INT | BOOL):
        return result(I, dims, ('kc', K(name == 'isfinite')), BOOL)
    if name in ('logical_not', 'logical_and', 'logical_or'):
        bs = [c[1][2] if c[0] == 'kc' and T.isk(c[1]) and c[1][1] in ('bool', 'int', 'float') else None for c in contents]
        if name == 'logical_not' and bs[0] is not None:
            return result(I, dims, ('kc', K(not bs[0])), BOOL)
        if len(bs) == 2 and any(b is not None and bool(b) == (name == 'logical_or') for b in bs):
            return result(I, dims, ('kc', K(name == 'logical_or')), BOOL)
        if len(bs) == 2 and None not in bs:
            return result(I, dims, ('kc', K(name == 'logical_and')), BOOL)
    if len(nd) == 1 and nd[0].buf.content[0] == 'sv' and name not in ('isnan', 'isfinite'):
        S = nd[0].buf.content[1]
        j = T.fresh_j()
        e = T.at(S, ('j', j))
        xs = [e if a is nd[0] else a.buf.content[1] for a in arrs]
        f = scalar_ew(name, xs)
        c = ('sv', T.comp(((j, T.length(S)),), f, TRUE))
    else:
        c = ewc(name, contents)
    r = result(I, dims, c, kind)
    if out is not None and isinstance(out, Arr) and isinstance(r, Arr):
        write_all(I, out, r.buf.content, kind, name + ' out=')
        return out
    return r


def scalar_ew(name, xs):
    m = {'add': T.padd, 'subtract': T.psub, 'multiply': T.pmul}
    try:
        if name in m and len(xs) == 2:
            return m[name](*xs)
        if name == 'negative':
            return T.pmul(K(-1), xs[0])
        if name == 'less':
            return T.lt(*xs)
        if name == 'less_equal':
            return T.le(*xs)
        if name == 'greater':
            return T.lt(xs[1], xs[0])
        if name == 'greater_equal':
            return T.le(xs[1], xs[0])
        if name == 'equal':
            return T.eq(*xs)
        if name == 'not_equal':
            return T.neg(T.eq(*xs))
        if name == 'logical_not':
            return T.neg(xs[0])
        if name == 'logical_and':
            return T.conj(xs)
        if name == 'logical_or':
            return T.disj(xs)
    except TypeError:
        pass
    return ('app', name) + tuple(xs)


def ewc(name, cs):
    """content of an elementwise operation"""
    cs = list(cs)
    if name == 'greater':
        name, cs = 'less', cs[::-1]
    elif name == 'greater_equal':
        name, cs = 'less_equal', cs[::-1]
    if name == 'logical_not' and cs[0][0] == 'ew' and cs[0][1] == 'logical_not':
        return cs[0][2][0]
    if name == 'negative' and cs[0][0] == 'ew' and cs[0][1] == 'negative':
        return cs[0][2][0]
    if name == 'pos':
        return cs[0]
    if name == 'multiply' and ('kc', K(float('nan'))) in cs:
        return ('kc', K(float('nan'))) if all(c[0] == 'kc' for c in cs) else ('nanlike', tuple(cs))
    if name in ('multiply', 'divide') and cs[-1] in (('kc', K(1)), ('kc', K(1.0))):
        if name == 'multiply':
            return cs[0]
    if all(c[0] == 'kc' for c in cs) and all(T.isk(c[1]) for c in cs) and len(cs) == 2:
        a, b = [T.kval(c[1]) for c in cs]
        try:
            v = {'add': lambda: a + b, 'subtract': lambda: a - b, 'multiply': lambda: a * b}[name]()
            return ('kc', K(v))
        except Exception:
            pass
    if name in COMMUT:
        cs = sorted(cs, key=repr)
    return ('ew', name, tuple(cs))


def region_of(I, out):
    """the part of the buffer that the view covers"""
    bd = [I.facts.norm(d) for d in out.buf.dims]
    od = [I.facts.norm(d) for d in out.dims]
    r = []
    if len(bd) != len(od):
        return tuple(out.dims)
    for D, d in zip(bd, od):
        if d == D:
            continue
        if d[0] == 'slc' and len(d) == 5 and d[1] == D:
            r.append((D, ('slc', tuple(d[2:]))))
        else:
            return tuple(out.dims)
    return tuple(r)


def write_all(I, out, content, kind, what, arr=None):
    """out[...] = content, through view `out`"""
    I.mutate(out.buf, what)
    if same_extent(I, out):
        out.buf.content = content
    else:
        out.buf.content = ('upd', out.buf.content, region_of(I, out), content)


def same_extent(I, a):
    d1 = sorted(repr(I.facts.norm(d)) for d in a.dims if d != ONE)
    d2 = sorted(repr(I.facts.norm(d)) for d in a.buf.dims if d != ONE)
    return d1 == d2


def inplace_op(I, op, cur, v):
    name = {'Add': 'add', 'Sub': 'subtract', 'Mult': 'multiply', 'Div': 'divide', 'Pow': 'power',
            'FloorDiv': 'floor_divide', 'BitAnd': 'bitand', 'BitOr': 'bitor', 'Mod': 'mod'}.get(op, op)
    if isinstance(v, Unk) or not cur.dims:
        if not cur.dims:
            return ew(I, name, [cur, v])
        I.mutate(cur.buf, 'in-place ' + name)
        cur.buf.content = ('opqc', T.fresh())
        return cur
    n = len(I.events)
    r = ew(I, name, [cur, v])
    c = r.buf.content if isinstance(r, Arr) else ('opqc', T.fresh())
    write_all(I, cur, c, None, 'in-place ' + name)
    if isinstance(r, Arr) and I.facts.kind(r.buf.kind) == INEXACT and I.kindof(cur) != INEXACT:
        I.event('castloss', what='in-place ' + name, dkind=cur.buf.kind)
    return cur


# ---------------------------------------------------------------- indexing

def parse_index(I, arr, i):
    """list of selectors or None: ('slice', a, b, c), ('int', term), ('new',),
    ('seq', S, dims), ('mask', Arr), ('maskseq', S)"""
    if isinstance(i, TupleV):
        items = list(i.items)
    elif isinstance(i, PyList):
        if i.items is not None and any(isinstance(x, (SliceV, PyList, Arr, TupleV)) or
                                       (isinstance(x, Const) and (x.v is None or x.v is Ellipsis))
                                       for x in i.items):
            items = list(i.items)
        else:
            items = [i]
    else:
        items = [i]
    out = []
    n = len(arr.dims)
    used = 0
    for x in items:
        if isinstance(x, Const) and x.v is None:
            continue
        if isinstance(x, Const) and x.v is Ellipsis:
            continue
        if isinstance(x, Arr) and I.kindof(x) == BOOL and len(x.dims) > 1:
            used += len(x.dims)
        else:
            used += 1
    for x in items:
        if isinstance(x, SliceV):
            out.append(('slice', I.freeze(x.a), I.freeze(x.b), I.freeze(x.c)))
        elif isinstance(x, Const) and x.v is None:
            out.append(('new',))
        elif isinstance(x, Const) and x.v is Ellipsis:
            for _ in range(n - used):
                out.append(('slice', NONE, NONE, NONE))
            used = n
        elif isinstance(x, Const) and isinstance(x.v, (int,)):
            out.append(('int', K(int(x.v))))
        elif isinstance(x, Sym) and x.typ in ('int', 'any', 'num', 'label'):
            out.append(('int', x.term))
        elif isinstance(x, Arr):
            if I.kindof(x) == BOOL:
                if len(x.dims) == 1:
                    out.append(('maskseq', I.seqterm(x), x))
                else:
                    out.append(('mask', x))
            elif len(x.dims) == 0:
                out.append(('int', ('app', 'item', x.buf.content)))
            else:
                S = I.seqterm(x)
                if S is None:
                    return None
                out.append(('seq', S, x.dims))
        elif isinstance(x, (PyList, TupleV)):
            S = I.seqterm_of(x)
            if S is None:
                return None
            if S[0] == 'lst' and len(S) > 1 and all(T.isk(e) and e[1] == 'bool' for e in S[1:]):
                pass
            out.append(('seq', S, (('pos', T.length(S)),)))
        else:
            return None
    while used < n:
        out.append(('slice', NONE, NONE, NONE))
        used += 1
    if sum(len(s[1].dims) if s[0] == 'mask' else (0 if s[0] == 'new' else 1) for s in out) > n:
        I.raise_('IndexError')
    return out


def gather_dim(I, D, S):
    """name of axis D after selecting positions S; also junk info"""
    D = I.facts.norm(D)
    if D == ONE:
        if T.isint(T.length(S)) and T.length(S)[2] == 1:
            return ONE, None
        return ('anon', T.fresh(), T.length(S)), None
    if D[0] in ('pos', 'free', 'anon', 'flat'):
        base = D
        g = T.comp_gather(base, S) if hasattr(T, 'comp_gather') else ('gd', base, S)
        return ('gd', D, S) if D[0] != 'pos' else ('pos', T.length(S)), None
    N = T.gather(D, I.facts.norm(S))
    if N[0] == 'comp' and N[2][0] == 'ite' and len(N[1]) == 1:
        # positions that could not be mapped: [L[pos] if t in L else junk for t in T]
        b, f, p = T.opencomp(N)
        c, good = f[1], f[2]
        sb, sf, sp = T.opencomp(S) if S[0] == 'comp' else (None, None, None)
        region = T.comp(b, ('j', b[0][0]), T.conj([p, T.neg(c)]))
        # which branch is the junk one: the one that does not depend on j
        if b[0][0] not in T.free_j(f[2]) and b[0][0] in T.free_j(f[3]):
            good = f[3]
            region = T.comp(b, ('j', b[0][0]), T.conj([p, c]))
        name = T.comp(b, good, p)
        return name, (name, region)
    return N, None


def index(I, arr, i):
    """arr[i]"""
    sel = parse_index(I, arr, i)
    if sel is None:
        if not isinstance(i, Unk):
            I.note('array index %s' % type(i).__name__)
        return Unk('array item')
    return do_index(I, arr, sel)


def do_index(I, arr, sel):
    adv = [s for s in sel if s[0] in ('seq', 'mask', 'maskseq')]
    content = arr.buf.content
    if not adv:
        dims = []
        k = 0
        pins = []
        for s in sel:
            if s[0] == 'new':
                dims.append(ONE)
                continue
            D = arr.dims[k]
            k += 1
            if s[0] == 'int':
                pins.append((D, s[1]))
                check_bounds(I, D, s[1])
                continue
            dims.append(slice_dim(I, D, s))
        if content[0] == 'sv' and len([d for d in arr.dims if d != ONE]) == 1:
            S = content[1]
            k = 0
            for s in sel:
                if s[0] == 'new':
                    continue
                D = arr.dims[k]
                k += 1
                if D == ONE:
                    continue
                if s[0] == 'int':
                    return I.thaw(T.at(S, negpos(S, s[1])))
                S2 = I.slc(S, s[1], s[2], s[3])
                if S2 != S:
                    dims = [ONE if d == ONE else ('pos', T.length(S2)) for d in dims]
                S = S2
            return view(I, arr, dims, ('sv', S))
        if pins:
            c = pin(I, content, pins)
            if not dims:
                return scalar_from(I, c, arr.buf.kind)
            return view(I, arr, dims, c, [(I.facts.norm(D), ('int', I.facts.norm(q))) for D, q in pins])
        return view(I, arr, dims, None)
    # advanced indexing: copies
    # whole-array boolean mask
    if len(sel) == 1 and sel[0][0] == 'mask':
        m = sel[0][1]
        mc = m.buf.content
        for d1, d2 in zip(arr.dims, m.dims):
            if dim_compat(I, d1, d2) is None:
                I.event('misalign', what='boolean index', d1=d1, d2=d2)
                mc = ('mis', mc, d2, d1)
        return I.mkarr((('masked', tuple(arr.dims), mc),), content, arr.buf.kind)
    if any(s[0] == 'mask' for s in sel):
        return Unk('partial n-d mask')
    # numpy: integers become part of the advanced index
    posn = []           # positions in sel of advanced items (ints included)
    for n, s in enumerate(sel):
        if s[0] in ('seq', 'maskseq', 'int'):
            posn.append(n)
    contiguous = all(posn[n + 1] - posn[n] == 1 for n in range(len(posn) - 1))
    newdims = []        # (selpos, dim)
    advd = []           # per advanced item: (axis dim D, S or None, idxdims)
    k = 0
    junks = []
    pins = []
    for n, s in enumerate(sel):
        if s[0] == 'new':
            newdims.append((n, ONE))
            continue
        D = arr.dims[k]
        k += 1
        if s[0] == 'slice':
            newdims.append((n, slice_dim(I, D, s)))
        elif s[0] == 'int':
            pins.append((D, s[1]))
        elif s[0] == 'maskseq':
            S = T.where(s[1])
            md = s[2].dims[0]
            if dim_compat(I, D, md) is None:
                I.event('misalign', what='boolean index', d1=D, d2=md)
                S = T.where(('mis', s[1], md, D))
            else:
                link_len(I, md, D)
            advd.append((n, D, S, (('pos', T.length(S)),)))
        else:
            advd.append((n, D, s[1], s[2]))
    # 1-d value sequences
    if content[0] == 'sv' and len([d for d in arr.dims if d != ONE]) == 1 and len(advd) == 1 and not pins:
        n, D, S, ds = advd[0]
        if D != ONE:
            g = T.gather(content[1], S)
            if len(newdims) == 0:
                return I.mkarr((('pos', T.length(g)),), ('sv', g), arr.buf.kind)
    nb = max(len(a[3]) for a in advd)
    bdims = []
    ok = True
    for b in range(nb):
        vary = []
        for (n, D, S, ds) in advd:
            p = b - (nb - len(ds))
            if p >= 0 and ds[p] != ONE:
                vary.append((n, D, S))
        if len(vary) == 1:
            n, D, S = vary[0]
            nd, junk = gather_dim(I, D, S)
            if junk:
                junks.append(junk)
            bdims.append(nd)
        elif len(vary) == 0:
            bdims.append(ONE)
        else:
            bdims.append(('ptw', tuple(gather_dim(I, D, S)[0] for n, D, S in vary)))
    # an index array varying along several result axes is not modelled
    cnt = {}
    for (n, D, S, ds) in advd:
        v = [d for d in ds if d != ONE]
        if len(v) > 1:
            ok = False
        if len(v) == 0:
            ndim, junk = gather_dim(I, D, S)
            cnt[n] = 1
    if not ok:
        return Unk('n-d index array')
    for j in junks:
        content = ('junk', content, j[0], j[1])
    if pins:
        content = pin(I, content, pins)
    if contiguous:
        first = posn[0]
        dims = [d for n, d in newdims if n < first] + bdims + [d for n, d in newdims if n > first]
    else:
        dims = bdims + [d for n, d in newdims]
    return I.mkarr(dims, content, arr.buf.kind)


def negpos(S, i):
    """position i (possibly negative constant) of S"""
    if T.isint(i) and i[2] < 0:
        return T.padd(T.length(S), i) if S[0] != 'lst' else i
    return i


def link_len(I, d1, d2):
    a, b = T.length(I.facts.norm(d1)), T.length(I.facts.norm(d2))
    if a != b and a[0] == 'len' and d1[0] in ('pos', 'free', 'anon'):
        I.facts.assume(T.eq(a, b), True)
    elif a != b and b[0] == 'len' and d2[0] in ('pos', 'free', 'anon'):
        I.facts.assume(T.eq(a, b), True)


def check_bounds(I, D, i):
    if I.catches('IndexError') and not T.isint(T.length(D)):
        if T.isint(i):
            return
        if not I.decide(T.lt(i, T.length(D))):
            I.raise_('IndexError')


def slice_dim(I, D, s):
    if s[1:] == (NONE, NONE, NONE):
        return D
    if D == ONE:
        return ONE if s[1:] == (NONE, NONE, K(-1)) else ('anon', T.fresh(), T.length(('slc', ONE) + s[1:]))
    if D[0] in ('pos',):
        return ('pos', ('len', ('slc', D) + tuple(s[1:])))
    return I.slc(I.facts.norm(D), *[I.facts.norm(x) for x in s[1:]])


def pin(I, c, pins):
    if c[0] == "kc":
        return c
    return ('pin', c, tuple(sorted([(I.facts.norm(D), I.facts.norm(i)) for D, i in pins], key=repr)))


def view(I, arr, dims, content, pins=None):
    """view of arr; when the coordinates lose axes the content of the view is
    not simply that of the buffer: keep a derived buffer that shares memory"""
    if content is None:
        return Arr(arr.buf, dims)
    b = SubBuf(arr.buf, content, dims, pins, arr.dims)
    I.heap.append(b)
    return Arr(b, dims)


class SubBuf(Buf):
    """part of another buffer's memory: a write goes through to the parent"""
    fields = ('_content', 'kind')

    def __init__(self, parent, content, dims, pins=None, pdims=()):
        self.parent = None
        Buf.__init__(self, content, parent.kind, tuple(dims))
        self.parent = parent
        self.pins = pins
        self.pdims = tuple(pdims)

    @property
    def content(self):
        return self._content

    @content.setter
    def content(self, c):
        old = getattr(self, '_content', None)
        self._content = c
        if self.parent is None:
            return
        if self.pins is None:
            self.parent.content = ('opqc', T.fresh())
            return
        region, val = tuple(self.pins), c
        if c[0] == 'upd' and c[1] == old:
            region, val = region + tuple(c[2]), c[3]
        order = list(self.pdims)
        region = sorted(region, key=lambda r: order.index(r[0]) if len(r) == 2 and r[0] in order else len(order))
        self.parent.content = ('upd', self.parent.content, tuple(region), val)

    @property
    def origin(self):
        p = self.parent
        while isinstance(p, SubBuf):
            p = p.parent
        return p.origin

    @origin.setter
    def origin(self, v):
        pass


def root(buf):
    while isinstance(buf, SubBuf):
        buf = buf.parent
    return buf


def store(I, arr, i, v):
    """arr[i] = v"""
    for x in i.items if isinstance(i, TupleV) else [i]:
        if isinstance(x, Arr) and x.buf.content in (('kc', K(False)), ('kc', K(0))) and I.kindof(x) == BOOL:
            return              # a mask that selects nothing
    I.mutate(arr.buf, 'array item assignment')
    rb = root(arr.buf)
    I.event('store', buf=rb, dims=arr.dims, index=i, value=v)
    sel = parse_index(I, arr, i)
    if sel is None:
        if not isinstance(i, Unk):
            I.note('array store index %s' % type(i).__name__)
        arr.buf.content = ('opqc', T.fresh())
        return
    if isinstance(v, Inst) and isinstance(v.attrs.get('x'), Arr):
        v = v.attrs['x']
    va = asarr(I, v)
    vk = I.facts.kind(va.buf.kind) if va is not None else ALLKINDS
    ak = I.kindof(arr)
    scalar_nan = isinstance(v, Const) and v.v != v.v        # numpy refuses to make it an integer
    if vk == INEXACT and not (ak & (INEXACT | OBJ)) and not (scalar_nan and ak == INT):
        I.event('castloss', what='item assignment', dkind=arr.buf.kind)
    vc = va.buf.content if va is not None else ('opqc', T.fresh())
    c = arr.buf.content
    full = all(s == ('slice', NONE, NONE, NONE) for s in sel)
    # alignment of the value with the region
    if va is not None and va.dims and not full:
        reg = None
        if not any(s[0] == 'mask' for s in sel):
            n = len(I.events)
            tmp = do_index(I, Arr(Buf(('kc', NONE), ALLKINDS, arr.dims), arr.dims), sel)
            del I.events[n:]
            if isinstance(tmp, Arr):
                reg = tmp.dims
        if reg is not None:
            off = len(reg) - len(va.dims)
            for k, d in enumerate(va.dims):
                if k + off < 0:
                    continue
                if dim_compat(I, reg[k + off], d) is None and not uniform(vc):
                    I.event('misalign', what='item assignment', d1=reg[k + off], d2=d)
                    vc = ('mis', vc, d, reg[k + off])
    elif va is not None and va.dims and full:
        off = len(arr.dims) - len(va.dims)
        for k, d in enumerate(va.dims):
            if k + off >= 0 and dim_compat(I, arr.dims[k + off], d) is None and not uniform(vc):
                I.event('misalign', what='item assignment', d1=arr.dims[k + off], d2=d)
                vc = ('mis', vc, d, arr.dims[k + off])
    if full:
        write_all(I, arr, vc, None, 'assignment')
        return
    if len(sel) == 1 and sel[0][0] == 'mask':
        m = sel[0][1]
        mc = m.buf.content
        for d1, d2 in zip(arr.dims, m.dims):
            if dim_compat(I, d1, d2) is None:
                I.event('misalign', what='boolean mask', d1=d1, d2=d2)
                mc = ('mis', mc, d2, d1)
        arr.buf.content = wherec(mc, vc, c)
        return
    region = []
    k = 0
    for s in sel:
        if s[0] == 'new':
            continue
        D = I.facts.norm(arr.dims[k])
        k += 1
        if s == ('slice', NONE, NONE, NONE):
            continue
        if s[0] == 'slice':
            region.append((D, ('slc', s[1:])))
        elif s[0] == 'int':
            region.append((D, ('int', I.facts.norm(s[1]))))
        elif s[0] == 'maskseq' and (s[1] is None or not s[2].dims):
            region.append((D, ('opq', T.fresh())))
        elif s[0] == 'maskseq':
            md = s[2].dims[0]
            if dim_compat(I, D, md) is None:
                I.event('misalign', what='boolean mask', d1=D, d2=md)
            region.append((D, ('seq', T.where(s[1]))))
        elif s[0] == 'seq':
            region.append((D, ('seq', I.facts.norm(s[1]))))
        else:
            region.append((D, ('opq', T.fresh())))
    # a 1-d boolean mask over the only axis
    if len(region) == 1 and len(arr.dims) == 1 and sel[0][0] == 'maskseq' and \
            sel[0][1] is not None and sel[0][1][0] == 'vals':
        arr.buf.content = wherec(sel[0][1][1], vc, c)
        return
    # unmapped positions being marked missing
    if len(region) == 1 and region[0][1][0] == 'seq' and uniform(vc):
        D, (_, S) = region[0]
        new = fill_junk(I, c, D, S, vc[1])
        if new is not None:
            arr.buf.content = new
            return
        lm = T.length(I.facts.norm(S))
    arr.buf.content = ('upd', c, tuple(region), vc)


def fill_junk(I, c, D, S, val):
    """replace the junk marker of axis D whose region is S"""
    if c[0] == 'junk':
        if I.facts.norm(c[2]) == I.facts.norm(D) and I.facts.norm(c[3]) == I.facts.norm(S):
            return ('ext', c[1], c[2], c[3], val)
        inner = fill_junk(I, c[1], D, S, val)
        if inner is not None:
            return ('junk', inner, c[2], c[3])
    if c[0] == 'ext':
        inner = fill_junk(I, c[1], D, S, val)
        if inner is not None:
            return ('ext', inner, c[2], c[3], c[4])
    if c[0] == 'castc':
        inner = fill_junk(I, c[1], D, S, val)
        if inner is not None:
            return ('castc', inner, c[2])
    return None


def wherec(m, a, b):
    if a == b:
        return a
    if m[0] == 'ew' and m[1] == 'logical_not':
        return wherec(m[2][0], b, a)
    return ('where', m, a, b)


def arr_setattr(I, arr, name, v):
    if name == 'shape':
        I.mutate(arr.buf, 'shape')
        I.note('assignment to array shape')
        arr.dims = tuple(('anon', T.fresh(), K(0)) for _ in range(len(I.seq_of(v)[1] or arr.dims)))
    elif name == 'flat':
        I.mutate(arr.buf, 'flat assignment')
        a = asarr(I, v)
        arr.buf.content = a.buf.content if a is not None and not a.dims else ('opqc', T.fresh())
    elif name in ('T', 'dtype', 'real', 'imag'):
        I.mutate(arr.buf, name + ' assignment')


# ---------------------------------------------------------------- attributes

class FlatV(V):
    def __init__(self, arr):
        self.arr = arr


class FlagsV(V):
    """flags of an array: only the memory order"""
    NAMES = {'c_contiguous': 'contig', 'contiguous': 'contig', 'f_contiguous': 'fortran', 'fortran': 'fortran'}

    def __init__(self, arr):
        self.arr = arr

    def get(self, I, name):
        f = self.NAMES.get(str(name).lower(), None) or {'c': 'contig', 'f': 'fortran'}.get(str(name).lower())
        if f is None:
            return Unk('flag')
        a = self.arr
        return Sym(('app', f, I.facts.norm(a.buf.content), tuple(a.dims)), 'bool')


def flat_get(I, o, i):
    a = o.arr
    if isinstance(i, Const) and i.v in (0, -1) and not isinstance(i.v, bool):
        return index(I, a, TupleV([i] * len(a.dims)))
    wide = [k for k, d in enumerate(a.dims) if d != ONE]
    if isinstance(i, (Const, Sym)) and len(wide) <= 1:
        return index(I, a, TupleV([i if k in wide else Const(0) for k in range(len(a.dims))]))
    if isinstance(i, SliceV) and len(wide) == 1:
        return index(I, a, TupleV([i if k in wide else Const(0) for k in range(len(a.dims))]))
    if isinstance(i, (Const, Sym)) and not (isinstance(i, Const) and isinstance(i.v, bool)) and len(wide) == 2:
        n = I.num(T.length(I.facts.norm(a.dims[wide[1]])))
        at = {wide[0]: I.binop('FloorDiv', i, n), wide[1]: I.binop('Mod', i, n)}
        if all(isinstance(x, (Const, Sym)) for x in at.values()):
            return index(I, a, TupleV([at.get(k, Const(0)) for k in range(len(a.dims))]))
    return Unk('element of flat')


def flat_set(I, o, i, v):
    """a.flat[i] = v"""
    a = o.arr
    wide = [k for k, d in enumerate(a.dims) if d != ONE]
    if a.dims and len(wide) <= 1 and isinstance(i, (Const, Sym, SliceV)) and (wide or not isinstance(i, SliceV)):
        return store(I, a, TupleV([i if k in wide else Const(0) for k in range(len(a.dims))]), v)
    I.mutate(a.buf, 'flat item assignment')
    s = I.exact_slice(i) if isinstance(i, SliceV) else None
    va = asarr(I, v)
    if s == slice(None, None, None) and va is not None and not va.dims:
        a.buf.content = va.buf.content
        return
    c = a.buf.content
    if s is not None and s.step in (None, 1) and (s.start not in (None, 0) or s.stop is not None) and \
            c[0] == 'opqc' and isinstance(c[1], tuple) and c[1][0] == 'empty' and len(c[1]) == 2:
        a.buf.content = ('opqc', c[1] + ('part',))          # some elements are left as they were
        return
    a.buf.content = ('opqc', T.fresh())


class FinfoV(V):
    pass


def shape_tuple(I, arr):
    out = []
    for d in arr.dims:
        n = I.facts.norm(T.length(I.facts.norm(d)))
        if T.isk(n):
            out.append(Const(n[2]))
        else:
            out.append(Sym(n, 'int', hint=d))
    return TupleV(out)


def size_term(I, arr):
    n = K(1)
    for d in arr.dims:
        n = T.pmul(n, T.length(I.facts.norm(d)))
    return n


def native_getattr(I, o, name):
    if isinstance(o, Nat):
        full = o.name + '.' + name
        if full in CONSTS:
            return Const(CONSTS[full])
        if full == 'sys.version_info':
            return TupleV([Const(2), Const(7), Const(18), Const('final'), Const(0)])
        return Nat(full)
    if isinstance(o, Inst):
        I.raise_('AttributeError')
    if isinstance(o, Arr):
        if name == 'T':
            return Arr(o.buf, tuple(reversed(o.dims)))
        if name == 'shape':
            return shape_tuple(I, o)
        if name == 'ndim':
            return Const(len(o.dims))
        if name == 'size':
            t = I.facts.norm(size_term(I, o))
            return Const(t[2]) if T.isk(t) else Sym(t, 'int')
        if name == 'dtype':
            return DtypeV(o.buf.kind)
        if name == 'flat':
            return FlatV(o)
        if name == 'flags':
            return FlagsV(o)
        if name == 'strides':
            return TupleV([Sym(('stride', d), 'int') for d in o.dims])
        if name in ('base', 'data', 'ctypes', '__array_interface__', 'nbytes', 'itemsize',
                    'real', 'imag'):
            return Unk('array attribute ' + name)
        return NatMeth(o, name)
    if isinstance(o, DtypeV):
        if name == 'type':
            return DtypeV(o.kind, True)
        if name == 'kind':
            return Sym(('dkind', o.kind), 'str')
        if name in ('name', 'char', 'str', 'names', 'itemsize', 'fields'):
            return Unk('dtype attribute ' + name)
        return NatMeth(o, name)
    if isinstance(o, SliceV):
        if name == 'start':
            return o.a
        if name == 'stop':
            return o.b
        if name == 'step':
            return o.c
        return NatMeth(o, name)
    if isinstance(o, ExcV):
        return Unk('exception attribute')
    if isinstance(o, I.h5.H5V):
        return o.getattr(I, name)
    if I.world is not None and isinstance(o, Sym):
        r = I.h5.sym_attr(I, o, name)
        if r is not None:
            return r
    if isinstance(o, Sym) and name in ('ndim', 'shape', 'size', 'dtype'):
        if o.typ in ('int', 'float', 'num', 'bool'):
            if name == 'ndim':
                return Const(0)
            if name == 'shape':
                return TupleV([])
            if name == 'size':
                return Const(1)
            return DtypeV({'int': INT, 'bool': BOOL}.get(o.typ, INEXACT))
        return Unk('scalar attribute')
    if isinstance(o, Const):
        if name == 'ndim' and isinstance(o.v, (float, bool, int)):
            return Const(0)
        if name == 'shape':
            return TupleV([])
        if o.v is None or o.v is NotImplemented:
            if not hasattr(o.v, name):
                I.raise_('AttributeError')
        return NatMeth(o, name)
    if isinstance(o, FlatV):
        return NatMeth(o, name)
    if isinstance(o, FlagsV):
        return o.get(I, name)
    return NatMeth(o, name)


# ---------------------------------------------------------------- dtype logic

def kind_cond(I, kind, kinds, exact, tag):
    if isinstance(kind, frozenset):
        if not (kind & kinds):
            return FALSE
        if exact and kind <= kinds:
            return TRUE
    base = ('kindin', kind, kinds)
    if exact:
        return base
    typ = getattr(I, 'float_type', None)
    if typ is not None and kinds <= INEXACT:
        # the context is about data of one floating point type
        return base if tag in FLOATTYPES[typ] else FALSE
    if tag in ('builtins.float', 'np.float64', 'np.floating', 'np.float_', 'builtins.int', 'np.int64', 'np.int_'):
        # the package works with the default float and int types
        return base
    return T.conj([base, ('app', 'exactdtype', ('kk', kind), K(tag))])


def dtype_eq(I, a, b):
    if isinstance(a, DtypeV) and isinstance(b, DtypeV):
        if a.kind == b.kind and (not isinstance(a.kind, frozenset) or a.kind != ALLKINDS):
            if isinstance(a.kind, tuple):
                return Const(True)
        ka, kb = I.facts.kind(a.kind), I.facts.kind(b.kind)
        if not (ka & kb):
            return Const(False)
        if ka == kb and len(ka) == 1 and ka <= (BOOL | OBJ | INT | INEXACT):
            return Const(True)
        for k in sorted(ka & kb):
            pass
        return Sym(('app', 'dteq', ('kk', a.kind), ('kk', b.kind)), 'bool')
    d, o = (a, b) if isinstance(a, DtypeV) else (b, a)
    if isinstance(o, Const) and isinstance(o.v, str):
        o = Nat(SCODES.get(o.v, 'x'))
    if isinstance(o, Nat) and o.name in TYPEKIND:
        kinds, exact = TYPEKIND[o.name]
        return I.bool_(kind_cond(I, d.kind, kinds, exact, o.name))
    if isinstance(o, Const):
        return Const(False)
    return Unk('dtype comparison')


def issub(I, a, b):
    """issubclass(a, b) for types"""
    if isinstance(b, TupleV):
        ts = [I.truth_term(issub(I, a, x)) for x in b.items]
        return I.bool_(T.disj(ts))
    if isinstance(a, DtypeV):
        if isinstance(b, Nat) and b.name in TYPEKIND:
            kinds, exact = TYPEKIND[b.name]
            return I.bool_(kind_cond(I, a.kind, kinds, exact, b.name))
        return Unk('issubclass')
    if isinstance(a, Nat) and isinstance(b, Nat):
        return Const(nat_issub(a.name, b.name))
    if isinstance(a, ClassV) and isinstance(b, ClassV):
        c = [a]
        while c:
            x = c.pop()
            if x is b:
                return Const(True)
            c.extend(y for y in x.bases if isinstance(y, ClassV))
        return Const(False)
    if isinstance(a, ClassV) or isinstance(b, ClassV):
        return Const(isinstance(b, Nat) and b.name == 'builtins.object')
    from .interp import TypeOf
    if isinstance(a, TypeOf):
        return Sym(('typesub', a.term, I.typename(b)), 'bool')
    return Unk('issubclass')


SUBS = {('builtins.bool', 'builtins.int'), ('datetime.datetime', 'datetime.date'), ('np.float64', 'builtins.float'), ('np.float64', 'np.floating'),
        ('np.float64', 'np.inexact'), ('builtins.str', 'builtins.basestring'),
        ('builtins.unicode', 'builtins.basestring'), ('np.int64', 'builtins.int')}


def nat_issub(a, b):
    return a == b or (a, b) in SUBS or b == 'builtins.object'


# python types for np.issubdtype(type(x), T)
def issubdtype(I, a, b):
    if isinstance(a, DtypeV):
        return issub(I, a, b)
    from .interp import TypeOf
    if isinstance(b, Nat) and b.name in TYPEKIND:
        kinds, exact = TYPEKIND[b.name]
        if isinstance(a, Nat) and a.name in TYPEKIND:
            k2, _ = TYPEKIND[a.name]
            return Const(k2 <= kinds)
        if isinstance(a, Nat) and a.name in ('builtins.NoneType', 'builtins.list', 'builtins.tuple', 'builtins.slice',
                                             'np.ndarray', 'builtins.dict', 'builtins.set',
                                             'builtins.function', 'builtins.NotImplementedType', 'builtins.ellipsis'):
            # numpy turns None into float64 dtype; the others into object
            return Const(bool(OBJ & kinds))
        if isinstance(a, ClassV):
            return Const(bool(OBJ & kinds))
        if isinstance(a, TypeOf):
            return Sym(('typedt', a.term, tuple(sorted(kinds))), 'bool')
    return Unk('issubdtype')


def type_of(I, v):
    from .interp import TypeOf, UserFunc, FuncV as FV
    if isinstance(v, Const):
        return Nat({'NoneType': 'builtins.NoneType'}.get(type(v.v).__name__, 'builtins.' + type(v.v).__name__))
    if isinstance(v, Sym):
        if I.world is not None:
            r = I.world.typeof(I, v)
            if r is not None:
                return r
        m = {'int': 'builtins.int', 'float': 'builtins.float', 'num': 'builtins.float', 'bool': 'builtins.bool',
             'str': 'builtins.str'}.get(v.typ)
        return Nat(m) if m else TypeOf(v.term)
    if isinstance(v, TupleV):
        return Nat('builtins.tuple')
    if isinstance(v, PyList):
        return Nat('builtins.' + ('list' if v.pytype == 'list' else v.pytype))
    if isinstance(v, PyDict):
        return Nat('builtins.dict')
    if isinstance(v, PySet):
        return Nat('builtins.frozenset' if v.frozen else 'builtins.set')
    if isinstance(v, SliceV):
        return Nat('builtins.slice')
    if isinstance(v, Arr):
        return Nat('np.ndarray')
    if isinstance(v, Inst):
        return v.cls
    if isinstance(v, (FuncV, BoundV, UserFunc, NatMeth)):
        return Nat('builtins.function')
    if isinstance(v, Nat):
        return Nat('builtins.type')
    if isinstance(v, DtypeV):
        return Nat('np.dtype')
    if isinstance(v, I.h5.H5V):
        return v.type_of(I)
    return Unk('type')


def isinstance_(I, v, t):
    if isinstance(t, TupleV):
        ts = [isinstance_(I, v, x) for x in t.items]
        if any(isinstance(x, Unk) for x in ts):
            return Unk('isinstance')
        return I.bool_(T.disj([I.truth_term(x) for x in ts]))
    if isinstance(v, Unk) or isinstance(t, Unk):
        return Unk('isinstance')
    if isinstance(v, I.h5.H5V):
        return v.isinstance(I, t)
    if isinstance(t, Nat) and t.name == 'builtins.object':
        return Const(True)
    if isinstance(t, Nat) and t.name.split('.')[-1] in ('Sequence', 'Iterable', 'Mapping', 'Number', 'Callable'):
        last = t.name.split('.')[-1]
        if last == 'Iterable':
            return Const(isinstance(v, (PyList, TupleV, Arr, PyDict, PySet)))
        if last == 'Number':
            return Const(isinstance(v, (Const, Sym)))
        return Unk('isinstance abc')
    if isinstance(v, Inst):
        if isinstance(t, ClassV):
            return issub(I, v.cls, t)
        return Const(False)
    tv = type_of(I, v)
    if isinstance(tv, Unk):
        return Unk('isinstance')
    if isinstance(v, Const) and isinstance(v.v, bool) and isinstance(t, Nat) and t.name == 'builtins.int':
        return Const(True)
    if isinstance(t, Nat) and t.name in ('np.generic', 'np.number', 'np.floating', 'np.integer') and \
            isinstance(v, Sym) and v.typ in ('num', 'any'):
        return Sym(('app', 'isinst', v.term, K(t.name)), 'bool')
    if isinstance(t, Nat) and isinstance(tv, Nat):
        return Const(nat_issub(tv.name, t.name))
    if isinstance(tv, Nat) and isinstance(t, ClassV):
        return Const(False)
    r = I.equal(tv, t)
    return r


# ---------------------------------------------------------------- dict helpers

def dict_from_pairs(I, pairs):
    t, items = I.seq_of(pairs)
    d = I.new(PyDict([]))
    if items is not None:
        for x in items:
            t2, kv = I.seq_of(x)
            if kv is None or len(kv) != 2:
                d.entries, d.term = None, ('opq', T.fresh())
                return d
            k = I.freeze(kv[0])
            d.entries = [e for e in d.entries if e[0] != k] + [(k, kv[0], kv[1])]
        return d
    if t is not None and t[0] == 'comp' and t[2][0] in ('tup', 'lst') and len(t[2]) == 3:
        b, f, p = T.opencomp(t)
        d.entries, d.term = None, ('dcomp', b, f[1], f[2], p)
        return d
    d.entries, d.term = None, ('opq', T.fresh())
    return d


def dict_lookup(I, d, i):
    """(known-present condition term, value) for abstract dict"""
    b, kf, vf, p = d.term[1:]
    keys = T.comp(b, kf, p)
    kt = I.freeze(i)
    present = T.member(kt, T.mkset(keys))
    if len(b) == 1 and p == TRUE:
        v = T.subst_j(vf, {b[0][0]: T.pos(keys, kt)})
        return present, I.thaw(v)
    return present, Sym(('app', 'dget', ('k2', keys), kt), 'any')


def dict_get(I, d, i):
    k = I.freeze(i)
    if d.entries is not None:
        for e in d.entries:
            if e[0] == k:
                return e[2]
        if T.isk(k):
            if all(T.isk(e[0]) for e in d.entries):
                I.raise_('KeyError')
        for e in d.entries:
            q = T.eq(k, e[0])
            if I.decide(q):
                return e[2]
        I.raise_('KeyError')
    if d.term and d.term[0] == 'dcomp':
        present, v = dict_lookup(I, d, i)
        if I.strict_keys or I.catches('KeyError'):
            if not I.decide(present):
                I.raise_('KeyError')
        return v
    return Unk('dict value')


def nat_getitem(I, o, i):
    if isinstance(o, Nat) and o.name in ('np.r_', 'np.c_', 'np.s_', 'np.index_exp', 'np.mgrid', 'np.ogrid'):
        if o.name == 'np.s_':
            return i
        return I.unk(o.name)
    if isinstance(o, Nat) and o.name == 'sys.version_info':
        return Const(2)
    return Unk('item of ' + getattr(o, 'name', '?'))


from . import textmodel     # noqa
from .npmodels import *     # noqa  (the function and method tables)
from .npmodels import call_nat, call_meth
