"""C33: queries about a larry; C34: larrys made from a shape or from labels."""
import random

from ..core import Check, path_text
from ..values import *
from .. import catalog, fields, models, seqmodel
from .. import terms as T
from .. import oracle as O
from ..catalog import larry_cases, func_cases, func, method, sym, other, newlabels
from ..terms import K, TRUE, FALSE
from ..drivers import tstr
from ..seqmodel import Und, Lab, MISSING
from .. import ident

NANV = float('nan')
INF = float('inf')
D = 'la.deflarry'


def value(I, p, v):
    """a Python value at the point"""
    if isinstance(v, Const):
        return v.v
    if isinstance(v, Sym):
        return p.ev(I.facts.norm(v.term), {})
    if isinstance(v, TupleV):
        return tuple(value(I, p, x) for x in v.items)
    if isinstance(v, PyList):
        if v.items is not None:
            return [value(I, p, x) for x in v.items]
        return p.seq(I.facts.norm(v.term), {})
    if isinstance(v, Arr) and not v.dims:
        return p.cell(v.buf.content, {})
    raise Und(type(v).__name__)


def flatdims(ds):
    out = []
    for d in ds:
        out += flatdims(d[1]) if d[0] == 'flat' else [d]
    return out


class Labels(seqmodel.Point):
    """label lists only"""


LABELQ = ('isaligned', 'maxlabel', 'minlabel', 'copylabel', 'shape', 'size', 'ndim', 'getlabel', 'labelindex')


class C33(Check):
    id = 'C33'
    floor = 60
    rule = ('the value of a query on every path, a term over the labels and the elements of the operands, is evaluated at '
            'points of the abstract domain that satisfy the path condition and compared with the definition of the query')

    def cases(self):
        for c in larry_cases((1, 2, 3)):
            if c.meta.get('group') == 'query' and c.entry.split('.')[-1] in LABELQ + ('nx', 'dtype', 'copyx', 'getx'):
                yield c
        for c in func_cases((1, 2)):
            if c.entry in ('isaligned', 'unique', 'sortby'):
                yield c
        for t in ('list', 'tuple'):
            yield catalog.func('la.farray.group', 'unique_group', [catalog.newlabels('GROUPS', 'any', t)], group='query')

    # ------------------------------------------------------------- label queries
    def want(self, case, p):
        n, nd, ax = case.entry.split('.')[-1], case.meta['nd'], case.meta.get('axis')
        nds = case.meta.get('nds', (nd, nd))
        lab = lambda w, k: p.val[('lab', w, k)]
        if n == 'isaligned':
            ax = case.meta['args'][2] if len(case.meta['args']) > 2 else None
            if ax is not None:
                return lab('A', ax % nd) == lab('B', ax % nd)
            return [lab('A', k) for k in range(nds[0])] == [lab('B', k) for k in range(nds[1])]
        if n in ('maxlabel', 'minlabel'):
            L = [lab('A', k) for k in range(nd)] if ax is None else [lab('A', ax % nd)]
            if not all(L):
                raise Und('no labels')
            return (max if n == 'maxlabel' else min)(x for l in L for x in l)
        if n == 'copylabel':
            return [lab('A', k) for k in range(nd)]
        if n == 'getlabel':
            return lab('A', ax % nd)
        sh = tuple(len(lab('A', k)) for k in range(nd))
        if n == 'shape':
            return sh
        if n == 'size':
            q = 1
            for m in sh:
                q *= m
            return q
        if n == 'ndim':
            return nd
        if n == 'labelindex':
            x = p.val[('sym', 'lab', 'any')]
            L = lab('A', ax % nd)
            if x in L:
                return L.index(x)
            if case.meta.get('kw', {}).get('exact') is not False:
                return IndexError
            low = [l for l in L if l <= x]
            return L.index(max(low)) if low else IndexError
        raise Und(n)

    def labels(self, I, o, case):
        nd = case.meta['nd']
        nds = case.meta.get('nds', (nd, nd))
        leaves = {('lab', w, k) for w, m in zip('AB', nds) for k in range(m)}
        conds = list(o.taken)
        for t, _ in conds:
            seqmodel.atoms(t, leaves)
        if 'labelindex' in case.entry:
            leaves.add(('sym', 'lab', 'any'))
        good, why = 0, None
        for p in seqmodel.points(repr(case), leaves, (), lambda s: True, 400 if self.thorough else 160):
            if seqmodel.holds(p, conds) is not True:
                continue
            try:
                w = self.want(case, p)
            except Und:
                continue
            if o.kind == 'raise':
                if w is not IndexError:
                    return self.fail('%s raises' % case.entry, '%r raises %s with %s; path: %s' % (
                        case, o.exc.name, self.at(p), path_text(o)))
                good += 1
                continue
            try:
                g = value(I, p, o.value)
            except Und as e:
                why = str(e)
                continue
            if isinstance(w, bool) and isinstance(g, int):
                g = bool(g)
            if w is IndexError or g != w:
                return self.fail('%s: another answer' % case.entry, '%r gives %r, not %r, with %s; path: %s' % (
                    case, g, w, self.at(p), path_text(o)))
            good += 1
        if good:
            return self.ok(case.entry, '%r: %d points; path: %s' % (case, good, path_text(o)))
        if why:
            self.unknown('%s: %s' % (case.entry, why))

    def groups(self, I, o, case):
        rnd = random.Random('groups')
        conds = list(o.taken)
        good, why, und = 0, None, 0
        for k in range(60):
            some = rnd.choice(([Lab(1), Lab(2), Lab(3)], [''], [0, 2, 1, -1], ['b', 'a', ''], [0.5, 0.0, -1.5], [False, True]))
            G = [rnd.choice(some + [None]) for _ in range(rnd.randrange(6))]
            p = Labels({('seq', 'GROUPS', 'any'): G}, k)
            if seqmodel.holds(p, conds) is not True:
                continue
            want = sorted(set(G) - {None})
            if o.kind == 'raise':
                return self.fail('unique_group raises', 'raises %s with %r; path: %s' % (o.exc.name, G, path_text(o)))
            try:
                g = p.seq(I.facts.norm(I.seqterm_of(o.value)), {}) if isinstance(o.value, (PyList, TupleV)) else None
            except Und as e:
                why = str(e)
                und += 1
                continue
            if g is None:
                why = 'result'
                continue
            if list(g) != want:
                return self.fail('unique_group: another answer', 'gives %r, not %r, with %r; path: %s' % (
                    list(g), want, G, path_text(o)))
            good += 1
        if good > und:
            return self.ok(case.entry, '%r: %d points; path: %s' % (case, good, path_text(o)))
        if why:
            self.unknown('unique_group: %s' % why)

    @staticmethod
    def at(p):
        return dict((tstr(k), v) for k, v in p.val.items())

    # ------------------------------------------------------------- queries about elements
    def visit(self, I, o, case):
        n, nd = case.entry.split('.')[-1], case.meta.get('nd', 2)
        if n in LABELQ:
            return self.labels(I, o, case)
        if n == 'unique_group':
            return self.groups(I, o, case)
        ax = [('lab', 'A', k) for k in range(nd)]
        axes = {'A': ax}
        if n == 'sortby':
            return self.sortby(I, o, case, axes)
        if o.kind == 'raise':
            if n == 'unique' and o.exc.name == 'TypeError':
                return
            return self.fail('%s raises' % case.entry, '%r raises %s; path: %s' % (case, o.exc.name, path_text(o)))
        v = o.value
        if n == 'dtype':
            if isinstance(v, DtypeV) and v.kind == ('kv', 'A'):
                return self.ok(case.entry, repr(case))
            if isinstance(v, DtypeV) and I.facts.kind(v.kind) != I.facts.kind(('kv', 'A')):
                return self.fail('%s: another type' % case.entry, '%r gives the type %s' % (case, v.kind))
            return self.unknown('%s: type' % case.entry)
        if n == 'unique':
            return self.unique(I, o, case, ax)
        if n in ('copyx', 'getx'):
            if not isinstance(v, Arr):
                return self.unknown('%s: result' % case.entry)
            content, dims = v.buf.content, list(v.dims)
            if [fields.Field.base(d) if not T.isk(d) else d for d in dims] != ax:
                return self.unknown('%s: axes' % case.entry)
            want = lambda p, e: p.data['A'][tuple(p.val[d].index(e[d]) for d in ax)]
        elif n == 'nx':
            if isinstance(v, Sym):
                content = I.facts.norm(v.term)
            elif isinstance(v, Arr) and not v.dims:
                content = v.buf.content
            elif isinstance(v, Const):
                content = ('kc', K(v.v))
            else:
                return self.unknown('nx: result')
            if content[0] not in ('kc', 'red', 'app', 'poly', 'ite'):
                return self.unknown('nx: %s' % content[0])
            if content[0] == 'ite':
                content = ('kc', content)
            dims = []
            want = lambda p, e: sum(1 for x in p.data['A'].values() if not ident.isnan(x) and abs(x) != INF)
        else:
            return
        r = fields.compare(I, content, dims, want, axes, list(o.taken), repr(case), n=400 if self.thorough else 120,
                           extra=(INF, -INF) if n == 'nx' else ())
        if r[0] == 'same':
            return self.ok(case.entry, '%r: %s at %d points' % (case, tstr(content)[:200], r[1]))
        if r[0] is None:
            if r[1] in ('kind', 'no point on the path'):
                return
            return self.unknown('%s: %s' % (case.entry, r[1]))
        self.fail('%s: another answer' % case.entry, '%r: %s; path: %s' % (case, r[1], path_text(o)))

    def unique(self, I, o, case, ax):
        flags = [x for x in case.meta.get('args', ())[1:]]
        want = ['uniqc'] + [n for n, f in zip(('uniqix', 'uniqinv'), flags) if f]
        v = o.value
        got = list(v.items) if isinstance(v, TupleV) else [v]
        if not all(isinstance(a, Arr) for a in got):
            return self.unknown('unique: result')
        if not all(a.buf.content[0] in ('uniqc', 'uniqix', 'uniqinv') for a in got):
            return self.unknown('unique: content')
        heads = [a.buf.content[0] for a in got]
        if heads != want:
            return self.fail('unique: another answer', '%r returns %s, not %s' % (case, heads, want))
        for a in got:
            c = a.buf.content
            if c[1] != ('X', 'A'):
                return self.unknown('unique: elements')
            ds = flatdims([I.facts.norm(d) for d in c[2]])
            if ds != ax and (sorted(ds) != sorted(ax) or c[0] != 'uniqc'):
                return self.fail('unique: other elements', '%r: %s' % (case, tstr(c)))
        self.ok('unique', '%r: %s' % (case, tstr(got[0].buf.content)))

    # ------------------------------------------------------------- sortby
    def sortby(self, I, o, case, axes):
        ax = case.meta['axis'] % 2
        D0, D1 = axes['A'][ax], axes['A'][1 - ax]
        e = ('sym', 'e', 'any')
        rev = case.meta['kw'].get('reverse')
        revt = None if isinstance(rev, bool) else rev
        conds = list(o.taken)
        choose = {e: lambda r, z: Lab(r.randrange(6))}
        I_ok = 'inexact' in I.facts.kind(('kv', 'A'))
        if not I_ok:
            return
        y = o.value if o.kind == 'return' else None
        if y is not None and not (isinstance(y, Inst) and isinstance(y.attrs.get('x'), Arr)):
            return self.unknown('sortby: result')
        syms = {e} | {x for c, _ in conds for x in T.walk(c) if x and x[0] == 'sym'}
        good, why = 0, None
        for p in fields.points('sortby %s' % ax, axes, syms, (), 'float', 400 if self.thorough else 150, choose=choose):
            if fields.onpath(p, conds) is not True:
                continue
            there = p.val[e] in p.val[D0]
            if y is None:
                if there:
                    return self.fail('sortby raises', '%r raises %s with %s; path: %s' % (
                        case, o.exc.name, C33.at(p), path_text(o)))
                good += 1
                continue
            if not there:
                return self.fail('sortby accepts', '%r returns although %r is no label of axis %d; path: %s' % (
                    case, p.val[e], ax, path_text(o)))
            try:
                labs = [p.seq(I.facts.norm(x.term), {}) for x in y.attrs['label'].items]
            except (Und, AttributeError, TypeError) as u:
                why = str(u)
                continue
            if labs[ax] != p.val[D0]:
                return self.fail('sortby: the wrong axis', '%r: the labels along axis %d change to %r, with %s' % (
                    case, ax, labs[ax], C33.at(p)))
            if sorted(labs[1 - ax]) != sorted(p.val[D1]):
                return self.fail('sortby: labels lost', '%r: the labels along axis %d are %r, with %s' % (
                    case, 1 - ax, labs[1 - ax], C33.at(p)))

            def cell(l):
                i = {D0: p.val[D0].index(p.val[e]), D1: p.val[D1].index(l)}
                return p.data['A'][(i[axes['A'][0]], i[axes['A'][1]])]
            row = [cell(l) for l in labs[1 - ax]]
            r = rev if isinstance(rev, bool) else p.val.get(rev.term) if revt is not None else False
            nums = [x for x in row if not ident.isnan(x)]
            if nums != sorted(nums, reverse=bool(r)):
                return self.fail('sortby: order', '%r: the elements at %r come in the order %r, with %s' % (
                    case, p.val[e], row, C33.at(p)))
            good += 1
        if good:
            self.ok('sortby', '%r: %d points; path: %s' % (case, good, path_text(o)))
        elif why:
            self.unknown('sortby: %s' % why)


# ------------------------------------------------------------------ creation
def rndfunc(name):
    """a function of the caller that makes random numbers"""
    def ret(I, args, kw):
        if not args:
            return Sym(('app', 'rnd', name), 'float')
        from ..npmodels import shape_dims, INEXACT
        dims = shape_dims(I, TupleV(list(args)))
        if dims is None:
            return Unk('rnd')
        return I.mkarr(dims, ('rnd', name), INEXACT)
    return catalog.arg(lambda I: UserFunc(name, ret), '<function %s>' % name)


CREATE = ('lrange', 'empty', 'zeros', 'ones', 'rand', 'randn')
KINDS = {'builtins.int': 'int', 'builtins.float': 'inexact', 'builtins.bool': 'bool', 'builtins.str': 'str',
         'builtins.object': 'object', 'builtins.complex': 'inexact'}


class C34(Check):
    id = 'C34'
    floor = 60
    rule = ('labels, axes, type and content of the new larry, as terms, are compared with the shape or the labels asked '
            'for and with the documented content of every cell')

    def cases(self):
        F = 'la.flarry'
        n = lambda k: sym('n%d' % k, 'int')
        for nd in (1, 2, 3):
            L = [newlabels('L%d' % k) for k in range(nd)]
            shape = tuple(n(k) for k in range(nd))
            for name in ('lrange', 'empty', 'zeros', 'ones'):
                par = [{'label': L}, {'shape': shape}, {'shape': list(shape)}, {'label': L, 'dtype': Nat('builtins.float')},
                       {'shape': shape, 'dtype': Nat('builtins.int')}, {'shape': shape, 'label': L}]
                if nd == 1:
                    par.append({'shape': n(0)})
                if name == 'lrange':
                    st = {'start': sym('start', 'int'), 'step': sym('step', 'int')}
                    par += [dict(q, **st) for q in par[:2]] + [
                        {'shape': shape, 'start': sym('start', 'int')}, {'shape': shape, 'step': sym('step', 'int')}]
                else:
                    par += [dict(q, order='F') for q in par[:2]] + [{'shape': shape, 'dtype': Nat('builtins.bool')}]
                for kw in par:
                    yield func(F, name, [], kw, nd=nd, group='create')
                yield func(F, name, [shape], nd=nd, group='create')
                yield func(F, name, [None, L], nd=nd, group='create')
            for name in ('rand', 'randn'):
                for kw in ({}, {name: rndfunc('own')}):
                    yield func(F, name, list(shape), kw, nd=nd, group='create')
                    yield func(F, name, [], dict(kw, label=L), nd=nd, group='create')
                    yield func(F, name, list(shape), dict(kw, label=L), nd=nd, group='create', both=True)
        for name in ('rand', 'randn'):
            for kw in ({}, {name: rndfunc('own')}):
                yield func(F, name, [], kw, nd=0, group='create')
        for d in sorted(KINDS):
            yield func('la.missing', 'nans', [(n(0), n(1)), Nat(d)], nd=2, group='nans', dt=d)
        for c in catalog.create_cases((1, 2, 3)):
            if c.meta.get('group') == 'constructor_nolabel':
                yield c

    def visit(self, I, o, case):
        n, nd = case.entry.split('.')[-1], case.meta['nd']
        kw = case.meta.get('kw') or {}
        args = list(case.meta.get('args') or ())
        conds = list(o.taken)
        labelled = 'label' in kw or len(args) > 1 and args[0] is None
        nodef = case.meta['group'] == 'constructor_nolabel'
        if case.meta['group'] == 'nans':
            return self.nans(I, o, case)
        seqs_ = [('seq', 'L%d' % k, 'label') for k in range(nd)]
        shp = [('sym', 'n%d' % k, 'int') for k in range(nd)]
        key = '%s(%s)' % (case.entry, 'label' if labelled else 'shape')
        if o.kind == 'raise':
            # only for labels that are not unique, and for a shape that contradicts the labels
            leaves = set(seqs_) | (set(shp) if case.meta.get('both') else set())
            for p in seqmodel.points(repr(case), leaves | {x for t, _ in conds for x in seqmodel.atoms(t, set())},
                                     (), lambda s: True, 100):
                if seqmodel.holds(p, conds, True) is not True:
                    continue
                if case.meta.get('both') and [p.val[s] for s in shp] != [len(p.val[l]) for l in seqs_]:
                    continue
                if any(p.val.get(s, 1) < 0 for s in shp):
                    continue
                return self.fail('%s raises' % key, '%r raises %s with %s; path: %s' % (
                    case, o.exc.name, C33.at(p), path_text(o)))
            return
        v = o.value
        if nd == 0:
            if isinstance(v, Sym) and v.term[:2] in (('app', 'rnd'), ('app', 'rng')):
                own = v.term[:2] == ('app', 'rnd')
                if own != bool(kw):
                    return self.fail('%s: another generator' % n, '%r gives %s' % (case, tstr(v.term)))
                return self.ok(n, repr(case))
            return self.unknown('%s without arguments' % n)
        if not (isinstance(v, Inst) and isinstance(v.attrs.get('x'), Arr) and isinstance(v.attrs.get('label'), PyList)
                and v.attrs['label'].items is not None):
            return self.unknown('%s: result not understood' % case.entry)
        x, labs = v.attrs['x'], v.attrs['label'].items
        dims = list(x.dims)
        # ---- the labels
        if nodef:
            want = []
            for k in range(nd):
                j = T.fresh_j()
                want.append(T.comp(((j, T.length(('free', 'A', k))),), ('j', j), TRUE))
        elif labelled:
            want = seqs_
        else:
            want = []
            for k in range(nd):
                j = T.fresh_j()
                want.append(T.comp(((j, shp[k]),), ('j', j), TRUE))
        if len(labs) != nd or len(dims) != nd:
            return self.fail('%s: axes' % key, '%r has %d axes, not %d' % (case, len(labs), nd))
        got = []
        for l in labs:
            if not isinstance(l, PyList):
                return self.unknown('%s: labels' % case.entry)
            t, items = I.seq_of(l)
            got.append(I.facts.norm(t) if t is not None else None)
        bad = False
        for k in range(nd):
            if got[k] is None:
                self.unknown('%s: labels' % case.entry)
                bad = True
            elif got[k] != I.facts.norm(want[k]):
                r = seqmodel.compare(I, [(got[k], want[k])], seed=repr(case))
                if r[0] == 'differ':
                    return self.fail('%s: labels' % key, '%r: the labels along axis %d are %r, not %r, with %s' % (
                        case, k, r[3], r[4], C33.at(r[2])))
                if r[0] != 'same':
                    self.unknown('%s: labels (%s)' % (case.entry, r[1]))
                    bad = True
            lens = (T.length(I.facts.norm(dims[k])), T.length(want[k]))
            if I.facts.norm(lens[0]) != I.facts.norm(lens[1]):
                r = seqmodel.compare(I, [lens], seed=repr(case))
                if r[0] == 'differ':
                    return self.fail('%s: shape' % key, '%r: axis %d has %r elements, not %r, with %s' % (
                        case, k, r[3], r[4], C33.at(r[2])))
        if not bad:
            self.ok(key, '%r: labels %s' % (case, ', '.join(tstr(g) for g in got)))
        # ---- the type
        kind = I.kindof(x)
        dt = kw.get('dtype')
        doc = None
        if isinstance(dt, Nat):
            doc = frozenset([KINDS[dt.name]])
        elif n in ('empty', 'zeros', 'ones', 'rand', 'randn'):
            doc = frozenset(['inexact'])
        if doc is not None and not (kind & doc):
            return self.fail('%s: type' % key, '%r has the type %s, not %s' % (case, sorted(kind), sorted(doc)))
        # ---- the content
        c = I.facts.norm(x.buf.content)
        if nodef:
            return self.ok('larry(array)', repr(case)) if c == ('X', 'A') else None
        if n == 'empty':
            return
        if n in ('rand', 'randn'):
            while c[0] in ('castc', 'copy'):
                c = c[1]
            own = n in kw
            if c[0] in ('rnd', 'opqc', 'rngc', 'kc'):
                if own != (c[0] == 'rnd') or c[0] == 'kc':
                    return self.fail('%s: another generator' % n, '%r: content %s' % (case, tstr(c)))
                return self.ok(n, '%r: content %s' % (case, tstr(c)))
            return self.unknown('%s: content' % n)
        val = lambda p, name, d: p.val[kw[name].term] if name in kw else d
        axes = {}
        if labelled:
            axes = {'L': seqs_}

        def cellof(p, e):
            if n in ('zeros', 'ones'):
                return 0 if n == 'zeros' else 1
            flat = 0
            for d in dims:
                flat = flat * len(p.seq(d, {})) + p.at(d, e)
            return val(p, 'start', 0) + val(p, 'step', 1) * flat
        choose = dict((s, lambda r, z: r.choice([1, 2, 3])) for s in shp) if not labelled else {}
        for q in ('start', 'step'):
            if q in kw:
                choose[kw[q].term] = lambda r, z: r.choice([-2, 0, 1, 2, 5])
        if c[0] == 'sv' and len(dims) == 1:
            d = tuple(I.facts.norm(q) for q in dims)
            c = ('resh', c, d, d, 'C')
        r = fields.compare(I, c, dims, cellof, axes, conds, repr(case), n=60, choose=choose)
        if r[0] == 'same':
            return self.ok('%s: content' % n, '%r: %s in %d cells' % (case, tstr(c)[:120], r[2]))
        if r[0] is None:
            if r[1] == 'no point on the path':
                return
            return self.unknown('%s: content (%s)' % (n, r[1]))
        self.fail('%s: content' % n, '%r: %s; path: %s' % (case, r[1], path_text(o)))

    def nans(self, I, o, case):
        doc = {'builtins.float': NANV, 'builtins.complex': NANV, 'builtins.str': '', 'builtins.object': None}
        d = case.meta['dt']
        if o.kind == 'raise':
            if d in doc:
                self.fail('nans raises', '%r raises %s' % (case, o.exc.name))
            else:
                self.ok('nans', '%r: refused' % case)
            return
        if d not in doc:
            return self.fail('nans accepts', '%r returns, although the type has no missing value' % case)
        x = o.value
        if not isinstance(x, Arr):
            return self.unknown('nans: result')
        if [I.facts.norm(T.length(I.facts.norm(q))) for q in x.dims] != [('sym', 'n0', 'int'), ('sym', 'n1', 'int')]:
            return self.unknown('nans: shape')
        c = x.buf.content
        if c[0] != 'kc' or not T.isk(c[1]):
            return self.unknown('nans: content')
        v = T.kval(c[1])
        if not (v == doc[d] or v != v and doc[d] != doc[d]) or not I.kindof(x) & frozenset([KINDS[d]]):
            return self.fail('nans: content', '%r is filled with %r, type %s' % (case, v, sorted(I.kindof(x))))
        self.ok('nans', '%r: filled with %r' % (case, v))


# ------------------------------------------------------------------ test assertions
def twin(I, a, who, nd, sharex, shared):
    """a larry that shares its array and some of its label lists with a"""
    b = catalog.mklarry(I, who, nd)
    ax, bx = a.attrs['x'], b.attrs['x']
    if sharex == 'same':
        b.attrs['x'] = ax
    elif sharex == 'view':
        b.attrs['x'] = models.view(I, ax, ax.dims, ax.buf.content)
    al, bl = a.attrs['label'].items, list(b.attrs['label'].items)
    for k in shared:
        bl[k] = al[k]
    b.attrs['label'] = I.new(PyList(bl), ('in', who, 'label'))
    return b


class C35(Check):
    id = 'C35'
    floor = 60
    rule = ('every path of an assertion: it returns only if each documented comparison was made and held, and raises '
            'AssertionError only if one of them failed')
    TM = 'la.util.testing'

    def case(self, name, desc, build, kw=None, **meta):
        def body(I):
            I.load(self.TM)
            f = I.prog.modules[self.TM].env[name]
            args = build(I)
            I.ctx_args = (None, args, kw or {})
            return I.call(f, args, dict((k, catalog.lift(I, v) if not isinstance(v, V) else v) for k, v in (kw or {}).items()))
        return catalog.Case(name, desc, body, name=name, kw=kw or {}, **meta)

    def cases(self):
        for nd in (1, 2, 3):
            allk = tuple(range(nd))
            share = [()] + [(k,) for k in allk] + ([allk] if nd > 1 else []) + ([(0, 2)] if nd == 3 else [])
            for sx in (None, 'same', 'view'):
                for lab in share:
                    def build(I, nd=nd, sx=sx, lab=lab):
                        a = catalog.mklarry(I, 'A', nd)
                        return [a, twin(I, a, 'B', nd, sx, lab)]
                    for n in ('assert_iscopy', 'assert_isview', 'noreference', 'nocopy'):
                        if sx == 'view' and n in ('noreference', 'nocopy'):
                            continue
                        yield self.case(n, '%dd larrys; data %s, labels %s shared' % (nd, sx or 'not', lab), build,
                                        nd=nd, sx=sx, lab=lab)
        for n in ('assert_iscopy', 'assert_isview', 'noreference', 'nocopy'):
            for k in (0, 1):
                def build(I, k=k):
                    r = [catalog.mkarray(I, 'A', 1), catalog.mklarry(I, 'B', 1)]
                    return r[::-1] if k else r
                yield self.case(n, 'an array as argument %d' % (k + 1), build, bad=True)
        for nd in (1, 2):
            for dt in (True, False):
                def build(I, nd=nd):
                    return [catalog.mklarry(I, 'A', nd), catalog.mklarry(I, 'B', nd)]
                yield self.case('assert_larry_equal', '%dd larrys, dtype=%s' % (nd, dt), build,
                                {'dtype': dt} if not dt else {}, nd=nd, dt=dt)
                for sx in (None, 'same'):
                    for lab in ((), tuple(range(nd))):
                        for ic in (True, False):
                            def build(I, nd=nd, sx=sx, lab=lab):
                                a = catalog.mklarry(I, 'A', nd)
                                I.original = twin(I, a, 'O', nd, sx, lab)
                                return [a, catalog.mklarry(I, 'B', nd), Const(''), Const(True), I.original]
                            if nd == 1 and dt:
                                yield self.case('assert_larry_equal', '%dd larrys, original: data %s, labels %s shared, '
                                                'iscopy=%s' % (nd, sx or 'not', lab, ic), build, {'iscopy': ic}, nd=nd,
                                                dt=dt, sx=sx, lab=lab, ic=ic)
        yield self.case('assert_larry_equal', '1d and 2d', lambda I: [catalog.mklarry(I, 'A', 1), catalog.mklarry(I, 'B', 2)],
                        never=True)
        for k in (0, 1):
            def build(I, k=k):
                r = [sym('s', 'float'), catalog.mklarry(I, 'B', 1)]
                return r[::-1] if k else r
            yield self.case('assert_larry_equal', 'a number as argument %d' % (k + 1), build, never=True)
        for dt in (True, False):
            yield self.case('assert_larry_equal', 'two numbers, dtype=%s' % dt, lambda I: [sym('s', 'float'), sym('t', 'float')],
                            {'dtype': dt}, scalars=True, dt=dt)
        yield self.case('assert_larry_equal', 'numbers of two types', lambda I: [sym('s', 'float'), sym('t', 'int')], never=True)

    def visit(self, I, o, case):
        m = case.meta
        n = m['name']
        if o.kind == 'raise' and o.exc.name not in ('AssertionError', 'TypeError', 'ValueError'):
            return self.fail('%s: %s' % (n, o.exc.name), '%r raises %s; path: %s' % (case, o.exc.name, path_text(o)))
        if m.get('bad'):
            if o.kind == 'return':
                return self.fail('%s accepts' % n, '%r returns' % case)
            return self.ok(n, '%r: %s' % (case, o.exc.name))
        if n == 'assert_larry_equal':
            return self.equal(I, o, case)
        if o.kind == 'raise' and o.exc.name != 'AssertionError':
            return self.fail('%s: %s' % (n, o.exc.name), '%r raises %s; path: %s' % (case, o.exc.name, path_text(o)))
        if n in ('noreference', 'nocopy'):
            w = m['sx'] is None and not m['lab'] if n == 'noreference' else m['sx'] is not None and len(m['lab']) == m['nd']
            v = o.value
            if o.kind == 'raise' or isinstance(v, Const) and bool(v.v) != w:
                return self.fail('%s: another answer' % n, '%r gives %s, not %r' % (
                    case, o.exc.name if o.kind == 'raise' else v.v, w))
            if isinstance(v, Const):
                return self.ok(n, '%r: %s' % (case, w))
            return self.unknown('%s: result' % n)
        w = m['sx'] is None and not m['lab'] if n == 'assert_iscopy' else m['sx'] is not None and len(m['lab']) == m['nd']
        if (o.kind == 'return') != w:
            if any(T.contains(c, lambda x: x and x[0] in ('unk', 'opq')) for c, _ in o.taken):
                return self.unknown('%s: condition' % n)
            return self.fail('%s: %s' % (n, 'raises' if w else 'does not raise'), '%r %s; path: %s' % (
                case, 'raises' if w else 'returns', path_text(o)))
        self.ok(n, repr(case))

    def equal(self, I, o, case):
        m = case.meta
        n = 'assert_larry_equal'
        if o.kind == 'raise' and o.exc.name != 'AssertionError':
            return self.fail('%s: %s' % (n, o.exc.name), '%r raises %s; path: %s' % (case, o.exc.name, path_text(o)))
        if m.get('never'):
            if o.kind == 'return':
                return self.fail('%s: does not raise' % n, '%r returns; path: %s' % (case, path_text(o)))
            return self.ok(n, repr(case))
        done = {}
        for c, v in o.taken:
            if c[0] == 'app' and c[1] in ('assert_equal', 'assert_almost_equal', 'no arithmetic'):
                done[(c[1], c[2]) if c[1] != 'no arithmetic' else c[1]] = (v, c[3])
            if T.contains(c, lambda x: x and x[0] in ('unk', 'opq')):
                return self.unknown('%s: condition' % n)
        say = lambda what: self.fail('%s: %s' % (n, what), '%r %s; path: %s' % (
            case, 'raises' if o.kind == 'raise' else 'returns', path_text(o)))

        def compared(side, inexact=None):
            """True, False or None: not compared"""
            k = tuple(sorted(side, key=repr))
            e, a = done.get(('assert_equal', k)), done.get(('assert_almost_equal', k))
            if e is not None and e[0]:
                return True
            if a is not None and inexact is not False:
                if a[0] and T.isk(a[1]) and isinstance(T.kval(a[1]), int) and T.kval(a[1]) < 13 and inexact:
                    return None
                return a[0]
            if e is not None and (not inexact or done.get('no arithmetic', (False,))[0]):
                return False
            return None
        if m.get('scalars'):
            r = [compared((('sym', 's', 'float'), ('sym', 't', 'float')))]
            if o.kind == 'return' and r[0] is not True:
                return say('numbers not compared')
            if o.kind == 'raise' and r[0] is True and not m['dt']:
                return say('equal numbers refused')
            return self.ok(n, '%r; path: %s' % (case, path_text(o)))
        nd = m['nd']
        ka, kb = I.facts.kind(('kv', 'A')), I.facts.kind(('kv', 'B'))
        if 'inexact' in ka | kb and (len(ka) > 1 and len(kb) > 1):
            inexact = None
        else:
            inexact = ka == {'inexact'} or kb == {'inexact'}
        parts = [('labels along axis %d' % k, I.facts.query(T.eq(('lab', 'A', k), ('lab', 'B', k)))) for k in range(nd)]
        parts.append(('data', compared((('X', 'A'), ('X', 'B')), inexact)))
        if m['dt']:
            parts.append(('dtype', compared((('kv', 'A'), ('kv', 'B')), False)))
        if 'ic' in m:
            copy = m['sx'] is None and not m['lab']
            view = m['sx'] is not None and len(m['lab']) == nd
            parts.append(('copy', copy if m['ic'] else view))
        if o.kind == 'return':
            for what, r in parts:
                if r is not True:
                    return say('%s not compared' % what)
        elif not any(r is False for what, r in parts):
            return say('raises although nothing differs')
        self.ok(n, '%r: %s; path: %s' % (case, ', '.join('%s %s' % x for x in parts), path_text(o)))


CHECKS = [C33, C34, C35]
