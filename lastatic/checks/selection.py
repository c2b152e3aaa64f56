"""C27 (documented labels), C24 (access addresses the right cells) and C07
(results are valid larrys)."""
from ..core import Check, path_text
from ..values import *
from .. import catalog, oracle, seqs, fields
from .. import terms as T
from ..cells import nf, strip_all
from ..cells import understood as cells_understood
from ..terms import K, TRUE, FALSE, NONE
from ..drivers import tstr

X = ('X', 'A')


def lab(k, who='A'):
    return ('lab', who, k)


def labs(nd, who='A'):
    return [lab(k, who) for k in range(nd)]


def pick(S, pred):
    """[x for x in S if pred(x)]"""
    j = T.fresh_j()
    x = T.at(S, ('j', j))
    return T.comp(((j, T.length(S)),), x, pred(x, j))


CMP = {'==': lambda x, v: T.eq(x, v), '!=': lambda x, v: T.neg(T.eq(x, v)), '<': lambda x, v: ('app', '<', x, v),
       '>': lambda x, v: ('app', '<', v, x), '<=': lambda x, v: ('app', '<=', x, v),
       '>=': lambda x, v: ('app', '<=', v, x)}


def anyfinite(content, k, nd):
    """does position k hold a finite value somewhere?"""
    c = ('ew', 'isfinite', (content,))
    others = tuple(lab(i) for i in range(nd) if i != k)
    if others:
        c = ('red', 'any', c, others, ())
    return lambda x, j: ('at', ('vals', c, lab(k)), ('j', j))


def enough(k, nd, frac):
    c = ('ew', 'isfinite', (X,))
    keep = ('kc', T.padd(K(1.0), frac, -1))
    others = tuple(lab(i) for i in range(nd) if i != k)
    if others:
        c = ('red', 'sum', c, others, ())
        keep = ('ew', 'multiply', (keep, ('red', 'sum', ('kc', K(1.0)), others, ())))
    c = ('ew', 'less', (keep, c))
    return lambda x, j: ('at', ('vals', c, lab(k)), ('j', j))


class C27(Check):
    id = 'C27'
    rule = ('term comparison: the label list of every axis of every result is a term over the input label lists; its '
            'normal form must be the one documented for the method, in the documented order, and methods that only '
            'select or rearrange must leave every cell the input cell of that label')
    floor = 2000
    KEEP = {'elementwise', 'binary_scalar', 'binary_array', 'scan', 'move', 'group'}
    SCALAR = 'scalar'

    def cases(self):
        for case in catalog.everything(self.thorough):
            if self.want(case) is not None:
                yield case

    def want(self, case):
        """function (I) -> list of label terms / SCALAR, or None"""
        m = case.meta
        n, g, nd = m.get('name'), m.get('group'), m.get('nd')
        ax = m.get('axis')
        args, kw = m.get('args', ()), m.get('kw', {})
        if case.entry == 'larry.' + str(n) or g in ('lix_get',):
            k = ax % nd if isinstance(ax, int) and nd and g != 'insertaxis' else None
            if g in self.KEEP:
                return lambda I: labs(nd)
            if g == 'reduce' and n != 'farray':
                if k is None or nd == 1:
                    return lambda I: self.SCALAR
                return lambda I: labs(nd)[:k] + labs(nd)[k + 1:]
            if n == 'take':
                j = T.fresh_j()
                S = ('seq', 'IDX', 'int')
                return lambda I: self.put(nd, k, T.gather(lab(k), S))
            if n == 'keep_label':
                op, v = args[0], args[1]
                if op in CMP:
                    f = lambda x, j: CMP[op](x, v.term)
                else:
                    W = ('seq', 'W', 'label')
                    f = lambda x, j: T.member(x, W) if op == 'in' else T.neg(T.member(x, W))
                return lambda I: self.put(nd, k, pick(lab(k), f))
            if n == 'keep_x':
                if not args[2]:
                    return lambda I: labs(nd)
                from .values import COMPARE, ew

                def dense(I):
                    kd = I.facts.kind(('kv', 'A'))
                    mark = T.K('') if kd <= frozenset(['str']) else NONE if kd <= frozenset(['object']) \
                        else K(float('nan'))
                    c = ew(COMPARE[args[0]], X, ('kc', args[1].term))
                    masked = ('where', c, X, ('kc', mark))
                    return [pick(lab(i), anyfinite(masked, i, nd)) for i in range(nd)]
                return dense
            if n == 'vacuum':
                skip = [a % nd for a in args[0]] if isinstance(args[0], tuple) else [k]
                return lambda I: [lab(i) if i in skip else pick(lab(i), anyfinite(X, i, nd)) for i in range(nd)]
            if n == 'cut_missing':
                return lambda I: [lab(i) if i == k else pick(lab(i), enough(i, nd, args[0].term)) for i in range(nd)]
            if n == 'lag':
                q = args[0].term

                def lag(I):
                    if I.facts.query(T.lt(K(0), q)) is True:
                        return self.put(nd, k, T.slc(lab(k), q, NONE, NONE))
                    if I.facts.query(T.lt(q, K(0))) is True:
                        return self.put(nd, k, T.slc(lab(k), NONE, q, NONE))
                    if I.facts.query(T.eq(q, K(0))) is True or I.facts.query(T.lt(K(0), q)) is False:
                        return labs(nd)
                    return None
                return lag
            if n == 'morph':
                return lambda I: self.put(nd, k, ('seq', 'L', 'label'))
            if n == 'morph_like':
                return lambda I: labs(nd, 'B')
            if n == 'sortaxis':
                rev = bool(args[1]) if len(args) > 1 else False
                return lambda I: [T.srt(lab(i), rev) if k is None or i == k else lab(i) for i in range(nd)]
            if n == 'flipaxis' and g == 'flip':
                return lambda I: [T.slc(lab(i), NONE, NONE, K(-1)) if k is None or i == k else lab(i)
                                  for i in range(nd)]
            if n == 'maplabel' and g == 'maplabel':
                def mapped(i):
                    j = T.fresh_j()
                    return T.comp(((j, T.length(lab(i))),), ('app', 'user:func', T.at(lab(i), ('j', j))), TRUE)
                return lambda I: [mapped(i) if k is None or i == k else lab(i) for i in range(nd)]
            if n == 'T':
                return lambda I: labs(nd)[::-1]
            if n == 'swapaxes':
                def swapped(I):
                    out = labs(nd)
                    a, b = ax % nd, m['axis2'] % nd
                    out[a], out[b] = out[b], out[a]
                    return out
                return swapped
            if n == 'insertaxis':
                at = ax if ax >= 0 else ax + nd + 1
                # negative positions: documented like list.insert
                alts = [at] if ax >= 0 else [at, ax + nd]
                return lambda I: [labs(nd)[:a] + [('lst', args[1].term)] + labs(nd)[a:] for a in alts if a >= 0]
            if n == 'squeeze':
                return lambda I: [lab(i) for i in range(nd)
                                  if I.facts.query(T.eq(K(1), T.length(lab(i)))) is not True]
            if n == 'flatten':
                order = args[0]

                def flat(I):
                    js = [T.fresh_j() for _ in range(nd)]
                    t = ('tup',) + tuple(T.at(lab(i), ('j', js[i])) for i in range(nd))
                    b = [(js[i], T.length(lab(i))) for i in range(nd)]
                    return [T.comp(tuple(b if order == 'C' else b[::-1]), t, TRUE)]
                return flat
            if n == 'pull':
                return lambda I: labs(nd)[:k] + labs(nd)[k + 1:]
            if n == 'copylabel' or n == 'getlabel':
                return (lambda I: ('lists', labs(nd))) if n == 'copylabel' else (lambda I: ('list', lab(k)))
            if n in ('maxlabel', 'minlabel'):
                return None
            if g == 'getitem' or g == 'lix_get':
                return lambda I: self.selected(I, case)
            return None
        if n in ('lrange', 'empty', 'ones', 'zeros') and kw:
            return lambda I: [('seq', 'L0', 'label'), ('seq', 'L1', 'label')]
        if g == 'constructor':
            return lambda I: [('seq', 'L%d' % i, 'label') for i in range(nd)]
        if n == 'panel':
            def pan(I):
                a, b = T.fresh_j(), T.fresh_j()
                t = ('tup', T.at(lab(1), ('j', a)), T.at(lab(2), ('j', b)))
                return [T.comp(((a, T.length(lab(1))), (b, T.length(lab(2)))), t, TRUE), lab(0)]
            return pan
        if n == 'cov':
            return lambda I: [lab(0), lab(0)]
        if n == 'sortby':
            return None
        return None

    @staticmethod
    def put(nd, k, S):
        out = labs(nd)
        out[k] = S
        return out

    @staticmethod
    def selected(I, case):
        sp = axis_specs(case)
        if sp is None:
            return None
        out = []
        for k, s in enumerate(sp):
            d = picked(I, s, lab(k))
            if d is None:
                continue
            if case.meta['group'] == 'lix_get' and True in (
                    I.facts.query(T.eq(T.length(seqs.loosen(I, d)), K(1))), I.facts.query(T.eq(T.length(d), K(1)))):
                continue
            out.append(d)
        return out or C27.SCALAR

    # operations that only select or rearrange cells
    PURE = {'take', 'keep_label', 'vacuum', 'cut_missing', 'lag', 'sortaxis', 'flipaxis', 'maplabel', 'T', 'swapaxes',
            'insertaxis', 'squeeze', 'flatten', 'panel', 'larry', 'copy'}

    def visit(self, I, o, case):
        if o.kind != 'return':
            return
        w = self.want(case)(I)
        if w is None:
            return self.unknown('%s: not decided on this path' % case.entry)
        v = o.value
        if w == self.SCALAR:
            if isinstance(v, Inst):
                if case.meta['group'] == 'lix_get' and empty(I, case):
                    return self.ok(case.entry)
                if any(t[0] == 'app' and t[1] == 'isscalar' and not b for t, b in o.taken):
                    return self.unknown('%s: element that is no scalar' % case.entry)
                if 'unk' in repr(o.taken):
                    return self.unknown('%s: path not understood' % case.entry)
                return self.fail('%s: scalar expected' % case.entry, '%r returns a larry; path: %s'
                                 % (case, path_text(o)))
            return self.ok(case.entry)
        if isinstance(w, tuple):
            return self.listing(I, o, case, w)
        if not oracle.is_larry(v):
            if isinstance(v, (Unk, Sym)) or isinstance(v, Arr):
                # every axis may have been squeezed away
                return self.unknown('%s: result is not a larry' % case.entry)
            return self.fail('%s: larry expected' % case.entry, '%r returns %r; path: %s' % (case, v, path_text(o)))
        p = oracle.larry_parts(I, v)
        if p is None:
            return self.unknown('%s: result not understood' % case.entry)
        dims, content, got = p
        if self.nothing_kept(I, case, got):
            return self.ok(case.entry + ' nothing kept')
        alts = w if w and isinstance(w[0], list) else [w]
        for alt in alts[:-1]:
            if len(alt) == len(got) and all(seqs.same(I, g, e) is True for g, e in zip(got, alt)):
                alts = [alt]
        w = alts[-1]
        if len(w) != len(got):
            return self.fail('%s: number of axes' % case.entry,
                             '%r: %d axes documented, result has %d; path: %s' % (case, len(w), len(got), path_text(o)))
        for k, (g, e) in enumerate(zip(got, w)):
            r = seqs.same(I, g, e)
            if r is True:
                self.ok(case.entry, '%r: axis %d is labelled %s' % (case, k, tstr(g)[:200]))
            elif r is None:
                nd = case.meta.get('nd')
                r = fields.compare_seqs(I, I.facts.norm(g), e, {'A': labs(nd)}, o.taken, repr(case)) \
                    if nd and case.meta.get('group') == 'keep' else (None,)
                if r[0] == 'same':
                    self.ok(case.entry + ' (identity)', '%r: axis %d at %d points' % (case, k, r[1]))
                elif r[0] == 'different':
                    self.fail('%s: other labels than documented' % case.entry, '%r: axis %d: %s; path: %s'
                              % (case, k, r[1], path_text(o)))
                else:
                    self.unknown('%s: label of axis not understood' % case.entry)
            else:
                self.fail('%s: other labels than documented' % case.entry,
                          '%r: axis %d should be labelled %s, is labelled %s; path: %s'
                          % (case, k, tstr(e)[:300], tstr(g)[:300], path_text(o)))
        n = case.meta.get('name')
        if n in self.PURE:
            c = nf(strip_all(nf(content)))
            if c == X:
                self.ok(case.entry + ' cells')
            elif oracle.unknown_term(c) or not seqs.understood(c):
                self.unknown('%s: cells not understood' % case.entry)
            else:
                self.fail('%s: cells changed' % case.entry, '%r: cells are %s; path: %s'
                          % (case, tstr(c)[:300], path_text(o)))
        if n == 'lag':
            self.lagged(I, o, case, dims)

    def lagged(self, I, o, case, dims):
        """the datum labelled l[j + nlag] is the one that was labelled l[j]"""
        nd, k = case.meta['nd'], case.meta['axis'] % case.meta['nd']
        q = case.meta['args'][0].term
        neg = T.padd(K(0), q, -1)
        if I.facts.query(T.lt(K(0), q)) is True:
            e = T.slc(lab(k), NONE, neg, NONE)
        elif I.facts.query(T.lt(q, K(0))) is True:
            e = T.slc(lab(k), neg, NONE, NONE)
        else:
            e = lab(k)
        r = seqs.same(I, dims[k], e)
        if r is True:
            self.ok('larry.lag data')
        elif r is None:
            self.unknown('larry.lag: data not understood')
        else:
            self.fail('larry.lag: data of another lag', '%r: data along the axis should be that of %s, is that of %s; '
                      'path: %s' % (case, tstr(e)[:300], tstr(dims[k])[:300], path_text(o)))

    def nothing_kept(self, I, case, got):
        """an empty larry is returned when no label is left"""
        if case.meta['group'] == 'lix_get' and empty(I, case):
            return True
        return case.meta.get('name') in ('keep_label', 'cut_missing', 'keep_x', 'take') and got == [('lst',)] or \
            case.meta.get('group') == 'constructor' and all(I.facts.query(T.eq(T.length(g), K(0))) for g in got)

    def listing(self, I, o, case, w):
        v = o.value
        t, items = I.seq_of(v)
        if w[0] == 'lists':
            if items is None or len(items) != len(w[1]):
                return self.unknown('%s: result not understood' % case.entry)
            pairs = [(I.seqterm_of(x) if isinstance(x, (PyList, TupleV)) else None, e) for x, e in zip(items, w[1])]
        else:
            pairs = [(I.seqterm_of(v), w[1])]
        for g, e in pairs:
            r = seqs.same(I, g, e) if g is not None else None
            if r is True:
                self.ok(case.entry)
            elif r is None:
                self.unknown('%s: label not understood' % case.entry)
            else:
                self.fail('%s: other labels than documented' % case.entry,
                          '%r: should return %s, returns %s' % (case, tstr(e), tstr(g)[:300]))


def empty(I, case):
    """the 1d larry has no elements"""
    return case.meta['nd'] == 1 and I.facts.query(T.eq(T.length(lab(0)), K(0))) is True


# ------------------------------------------------------------------ indexing
def axis_specs(case):
    """what the index says about every axis, or None"""
    nd, ix = case.meta['nd'], case.meta['index']
    if isinstance(ix, Const) and ix.v is Ellipsis:
        ix = ()
    if not isinstance(ix, tuple):
        ix = (ix,)
    out = [one_spec(i) for i in ix]
    if any(s is None for s in out) or len(out) > nd:
        return None
    if sum(s[0] in ('seq', 'mask') for s in out) > 1:
        return None
    return out + [('slc', NONE, NONE, NONE)] * (nd - len(out))


def one_spec(i):
    def end(x):
        if x is None:
            return NONE
        if isinstance(x, list):
            return ('label', x[0].term)
        return x.term
    if isinstance(i, Sym):
        return ('int', i.term)
    if isinstance(i, slice):
        return ('slc', end(i.start), end(i.stop), end(i.step))
    if isinstance(i, list):
        return ('labs', [x.term for x in i])
    d = getattr(i, 'desc', '')
    if d.startswith('<ints '):
        return ('seq', ('seq', d[6:-1], 'int'))
    if d.startswith('<labels '):
        return ('labseq', ('seq', d[8:-1], 'label'))
    if d == '<bool array M>':
        return ('mask', ('free', 'M', 0))
    if d == '<bool larry M>':
        return ('mask', lab(0, 'M'))
    return None


def where(I, s, L):
    """positions along an axis labelled L that index element s selects"""
    def end(x):
        return T.pos(L, x[1]) if x[0] == 'label' else x
    if s[0] == 'int':
        return ('lst', s[1])
    if s[0] == 'slc':
        return T.slc(T.rng(T.length(L)), end(s[1]), end(s[2]), end(s[3]))
    if s[0] == 'seq':
        return s[1]
    if s[0] == 'labs':
        return ('lst',) + tuple(T.pos(L, x) for x in s[1])
    j = T.fresh_j()
    if s[0] == 'mask':
        return T.comp(((j, T.length(s[1])),), ('j', j), marked(s[1], j))
    return T.comp(((j, T.length(s[1])),), T.pos(L, T.at(s[1], ('j', j))), TRUE)


def marked(D, j):
    """is position j of the boolean index M true?"""
    return ('at', ('vals', ('X', 'M'), D), ('j', j))


def picked(I, s, L):
    """labels left along the axis, or None when the axis goes away"""
    if s[0] == 'int' or s[0] == 'labs' and len(s[1]) == 1:
        return None
    if s[0] == 'slc':
        return T.slc(L, *[T.pos(L, x[1]) if x[0] == 'label' else x for x in s[1:]])
    if s[0] == 'labs':
        return ('lst',) + tuple(s[1])
    if s[0] == 'labseq':
        return s[1]
    if s[0] == 'mask':
        j = T.fresh_j()
        return T.comp(((j, T.length(s[1])),), T.at(L, ('j', j)), marked(s[1], j))
    return T.gather(L, s[1])


def pins_of(I, c):
    """(content, [coordinate labels]) of a content with fixed coordinates"""
    out = []
    while c[0] in ('pin', 'castc') or c[0] == 'app' and c[1] == 'val' or c[0] == 'kc' and isinstance(c[1], tuple) and \
            c[1][0] in ('app', 'pin'):
        if c[0] == 'pin':
            for D, i in c[2]:
                if D[0] == 'lab' and i == K(0) and I.facts.query(T.eq(T.length(D), K(1))) is True:
                    continue
                x = I.facts.norm(T.at(D, i))
                if x[0] == 'at' and x[1][0] == 'lab' and x[2] == K(0) and \
                        I.facts.query(T.eq(T.length(x[1]), K(1))) is True:
                    continue
                out.append(x)
            c = c[1]
        elif c[0] == 'castc':
            c = c[1]
        elif c[0] == 'kc':
            c = c[1]
        else:
            c = c[2]
    return c, out


class C24(Check):
    id = 'C24'
    rule = ('index tracking: every read and write by position or by label is followed to the axis and the position it '
            'reaches; the cells read must be those at the labels or positions asked for, on the right axis, and a '
            'write must change exactly those cells')
    floor = 500
    READ = {'getitem', 'lix_get'}
    WRITE = {'setitem', 'setitem_larry', 'lix_set', 'lix_set_larry'}

    def cases(self):
        for case in catalog.everything(self.thorough):
            g, n = case.meta.get('group'), case.meta.get('name')
            if g in self.READ | self.WRITE and (axis_specs(case) is not None or case.meta.get('mask')) or \
                    n in ('get', 'set', 'pull', 'labelindex', 'fill') and case.entry == 'larry.' + n:
                yield case

    def visit(self, I, o, case):
        if o.kind != 'return':
            return
        g, n, nd = case.meta.get('group'), case.meta.get('name'), case.meta['nd']
        if n == 'labelindex':
            return self.labelindex(I, o, case)
        if n in ('get', 'set', 'pull'):
            # a label that is not there names no cell
            names = [(('sym', 'l%d' % k, 'any'), k) for k in range(nd)] if n != 'pull' else \
                [(('sym', 'lab', 'any'), case.meta['axis'] % nd)]
            for l, k in names:
                if I.facts.query(T.member(l, T.mkset(lab(k)))) is False:
                    return self.fail('%s: a label that is not there' % case.entry,
                                     '%r returns although %s is not a label of axis %d; path: %s'
                                     % (case, tstr(l), k, path_text(o)))
        if n == 'get':
            sp = [('labs', [('sym', 'l%d' % k, 'any')]) for k in range(nd)]
            return self.read(I, o, case, sp)
        if n == 'pull':
            k = case.meta['axis'] % nd
            sp = [('slc', NONE, NONE, NONE)] * nd
            sp[k] = ('labs', [('sym', 'lab', 'any')])
            return self.read(I, o, case, sp)
        if n == 'set':
            sp = [('labs', [('sym', 'l%d' % k, 'any')]) for k in range(nd)]
            return self.written(I, o, case, sp)
        if n == 'fill':
            return self.written(I, o, case, [('slc', NONE, NONE, NONE)] * nd)
        sp = axis_specs(case)
        if g == 'lix_get' and empty(I, case):
            return self.ok(case.entry)
        if g in self.READ:
            self.read(I, o, case, sp)
        else:
            self.written(I, o, case, sp)

    # ---------------------------------------------------------------- reading
    def read(self, I, o, case, sp):
        v = o.value
        q = I.facts.query
        if isinstance(v, Inst):
            x = v.attrs.get('x')
            if not isinstance(x, Arr):
                return self.unknown('%s: result not understood' % case.entry)
            dims, content = [I.facts.norm(d) for d in x.dims], I.facts.norm(x.buf.content)
            parts = oracle.larry_parts(I, v)
            if parts and len(parts[0]) == len(parts[2]):
                for d, l in zip(parts[0], parts[2]):
                    if oracle.same_labels(I, d, l) is False:
                        return self.fail('%s: other labels' % case.entry,
                                         '%r: returns the cells of %s labelled %s; path: %s'
                                         % (case, tstr(d)[:200], tstr(l)[:300], path_text(o)))
        elif isinstance(v, Arr):
            dims, content = [I.facts.norm(d) for d in v.dims], I.facts.norm(v.buf.content)
        elif isinstance(v, Sym):
            dims, content = [], I.facts.norm(v.term)
        else:
            return self.unknown('%s: result not understood' % case.entry)
        base, got = pins_of(I, content)
        if base != X:
            if oracle.unknown_term(content) or not seqs.understood(base):
                return self.unknown('%s: cells not understood' % case.entry)
            return self.fail('%s: cells changed' % case.entry, '%r: returns %s' % (case, tstr(content)[:300]))
        wantpins, wantdims = [], []
        for k, s in enumerate(sp):
            d = picked(I, s, lab(k))
            if d is None:
                p = where(I, s, lab(k))[1]
                wantpins.append(I.facts.norm(T.at(lab(k), p)) if s[0] == 'int' else I.facts.norm(s[1][0]))
            else:
                wantdims.append(d)
        # axes of length one may have been dropped
        left, k = list(dims), 0
        for e in wantdims:
            r = seqs.same(I, left[0], e) if left else False
            if r is True:
                left.pop(0)
                self.ok(case.entry, '%r: axis runs over %s' % (case, tstr(e)[:200]))
                continue
            L = seqs.loosen(I, e)
            if q(T.eq(T.length(L), K(1))) is True or q(T.eq(T.length(e), K(1))) is True:
                if L[0] != 'lab':
                    wantpins.append(I.facts.norm(T.at(L, K(0))))
                continue
            if r is None:
                left.pop(0)
                self.unknown('%s: axis not understood' % case.entry)
                continue
            return self.fail('%s: other cells' % case.entry,
                             '%r: an axis should run over %s, the result has %s; path: %s'
                             % (case, tstr(e)[:300], ', '.join(tstr(d)[:300] for d in dims) or 'no axes',
                                path_text(o)))
        if left:
            return self.fail('%s: extra axes' % case.entry, '%r: %s; path: %s'
                             % (case, ', '.join(map(tstr, left))[:300], path_text(o)))
        pool = list(wantpins)
        for gp in got:
            if gp[0] == 'at' and gp[1][0] == 'slc' and gp[1][4] in (NONE, K(1)) and gp[2] == K(0) and \
                    gp[1][2] != NONE and q(T.le(K(0), gp[1][2])) is True and q(T.eq(T.length(gp[1]), K(1))) is True:
                # the only element of a slice: the one at its start
                gp = I.facts.norm(T.at(gp[1][1], gp[1][2]))
            hit = [w for w in pool if seqs.same_scalar(I, gp, w) is True]
            if hit:
                pool.remove(hit[0])
                self.ok(case.entry, '%r: reads at %s' % (case, tstr(gp)[:200]))
            elif any(seqs.same_scalar(I, gp, w) is None for w in pool):
                return self.unknown('%s: position not understood' % case.entry)
            else:
                return self.fail('%s: other cells' % case.entry,
                                 '%r: reads at %s, should read at %s; path: %s'
                                 % (case, tstr(gp)[:300], ', '.join(tstr(w)[:200] for w in wantpins), path_text(o)))
        if pool and not got and not wantdims and len(sp) != len(dims):
            self.unknown('%s: positions lost' % case.entry)

    # ---------------------------------------------------------------- writing
    def written(self, I, o, case, sp):
        l = I.ctx_args[0]
        nd = case.meta['nd']
        x = l.attrs.get('x')
        if not isinstance(x, Arr):
            return self.unknown('%s: receiver not understood' % case.entry)
        content = I.facts.norm(x.buf.content)
        if len(x.dims) != nd or any(I.facts.norm(d) != I.facts.norm(lab(k)) for k, d in enumerate(x.dims)):
            return self.unknown('%s: receiver not understood' % case.entry)
        vals = [('sym', 'v', 'float'), ('X', 'B')]
        regions = [T.rng(T.length(lab(k))) for k in range(nd)]
        want = [where(I, s, lab(k)) for k, s in enumerate(sp or ())]
        if any(seqs.loosen(I, I.facts.norm(w)) == ('lst',) for w in want):
            return self.ok(case.entry + ' nothing to write')
        c = content
        while c[0] == 'castc':
            c = c[1]
        if c[0] == 'where' and c[3] == X and case.meta.get('mask') and (nd == 1 or sp is None) and \
                cells_understood(c[1]):
            # the cells where the boolean index is true
            if c[1] != ('X', 'M'):
                return self.fail('%s: writes other cells' % case.entry, '%r: writes where %s; path: %s'
                                 % (case, tstr(c[1])[:300], path_text(o)))
            regions, want, val = [], [], c[2]
            nd = 0
        elif sp is None:
            return self.unknown('%s: region not understood' % case.entry)
        elif c[0] == 'upd' and c[1] == X:
            for r in c[2]:
                if len(r) != 2 or r[0] not in [I.facts.norm(lab(k)) for k in range(nd)]:
                    return self.unknown('%s: region not understood' % case.entry)
                k = [I.facts.norm(lab(i)) for i in range(nd)].index(r[0])
                sel = r[1]
                L = r[0]
                if sel[0] == 'int':
                    regions[k] = ('lst', sel[1])
                elif sel[0] == 'slc':
                    regions[k] = T.slc(T.rng(T.length(L)), *sel[1])
                elif sel[0] == 'seq':
                    regions[k] = sel[1]
                else:
                    return self.unknown('%s: region not understood' % case.entry)
            val = c[3]
        elif c == X:
            if any(I.facts.query(T.eq(T.length(lab(k)), K(0))) is True for k in range(nd)):
                return self.ok(case.entry)
            return self.fail('%s: nothing written' % case.entry, '%r: path: %s' % (case, path_text(o)))
        else:
            val = c
        base, pins = pins_of(I, val)
        while base[0] in ('kc', 'castc'):
            base = base[1]
        if base not in vals:
            if not seqs.understood(val) or oracle.unknown_term(val):
                return self.unknown('%s: value not understood' % case.entry)
            return self.fail('%s: other value' % case.entry, '%r: writes %s; path: %s'
                             % (case, tstr(val)[:300], path_text(o)))
        for k in range(nd):
            r = seqs.same(I, regions[k], want[k])
            if r is None and regions[k][0] == 'lst' and want[k][0] == 'lst' and len(regions[k]) == len(want[k]) == 2:
                r = seqs.same_scalar(I, T.at(lab(k), regions[k][1]), T.at(lab(k), want[k][1]))
            if r is True:
                self.ok(case.entry, '%r: writes axis %d at %s' % (case, k, tstr(want[k])[:200]))
            elif r is None:
                self.unknown('%s: region not understood' % case.entry)
            else:
                self.fail('%s: writes other cells' % case.entry,
                          '%r: axis %d should be written at %s, is written at %s; path: %s'
                          % (case, k, tstr(want[k])[:300], tstr(regions[k])[:300], path_text(o)))

    def labelindex(self, I, o, case):
        k = case.meta['axis'] % case.meta['nd']
        v = o.value
        if not isinstance(v, Sym):
            return self.unknown('labelindex: not understood')
        t = I.facts.norm(v.term)
        want = T.pos(lab(k), ('sym', 'lab', 'any'))
        if t == want:
            return self.ok(case.entry)
        name = ('sym', 'lab', 'any')
        if I.facts.query(T.member(name, lab(k))) is False and case.meta['kw']:
            # nearest label: the largest of the smaller ones
            if t[0] == 'pos' and t[1] == lab(k) and t[2][0] == 'app' and t[2][1] == 'max':
                r = [seqs.same(I, t[2][2], pick(lab(k), lambda x, j: ('app', op, x, name))) for op in ('<=', '<')]
                if True in r:
                    return self.ok(case.entry, '%r: %s' % (case, tstr(t)))
                if r == [False, False]:
                    return self.fail('labelindex: not the nearest label', '%r: returns %s' % (case, tstr(t)))
            elif t[0] == 'app' and t[1] in ('max', 'min') or t[0] == 'pos' and t[2][0] == 'app' and t[2][1] == 'min':
                return self.fail('labelindex: not the nearest label', '%r: returns %s' % (case, tstr(t)))
            return self.unknown('labelindex: nearest label')
        if seqs.understood(t):
            return self.fail('labelindex: other position', '%r: returns %s' % (case, tstr(t)))
        self.unknown('labelindex: not understood')


class C07(Check):
    id = 'C07'
    rule = ('uniqueness inference: on every returning path the label lists of the result, and those of the receiver of '
            'an in-place operation, are free of duplicates: they are selections at distinct positions, sorted sets, '
            'unions, or were checked on that path; the data of the result has one axis per label list')
    floor = 1500

    def cases(self):
        for case in catalog.everything(self.thorough):
            # validate=False is documented to skip the checks
            if case.meta.get('validate') is not False:
                yield case

    def visit(self, I, o, case):
        if o.kind != 'return':
            return
        for path, l in oracle.larrys(o.value):
            self.one(I, o, case, path, l)
        if case.meta.get('group') in ('inplace', 'setitem', 'setitem_larry', 'lix_set', 'lix_set_larry') and \
                oracle.is_larry(I.ctx_args[0]):
            self.one(I, o, case, 'receiver', I.ctx_args[0])

    def one(self, I, o, case, path, l):
        p = oracle.larry_parts(I, l)
        if p is None:
            return self.unknown('%s: result not understood' % case.entry)
        dims, content, labs_ = p
        if len(dims) != len(labs_):
            return self.fail('%s: number of label lists' % case.entry,
                             '%r: %s has %d data axes but %d label lists; path: %s'
                             % (case, path, len(dims), len(labs_), path_text(o)))
        for k, S in enumerate(labs_):
            if not oracle.unknown_term(S) and not oracle.unknown_term(dims[k]) and \
                    I.facts.query(T.eq(T.length(S), T.length(dims[k]))) is False:
                self.fail('%s: number of labels' % case.entry,
                          '%r: %s axis %d has the labels %s for the cells %s; path: %s'
                          % (case, path, k, tstr(S)[:200], tstr(dims[k])[:200], path_text(o)))
            if I.facts.uniq(S) or I.facts.query(T.le(T.length(seqs.loosen(I, S)), K(1))) is True:
                self.ok(case.entry, '%r: %s axis %d: %s has no duplicates' % (case, path, k, tstr(S)[:200]))
            elif self.user(S) and self.checked_otherwise(S, o):
                self.unknown('%s: another check of the labels' % case.entry)
            elif self.user(S):
                self.fail('%s: duplicate labels' % case.entry,
                          '%r: %s axis %d is labelled %s, which may hold duplicates; path: %s'
                          % (case, path, k, tstr(S)[:300], path_text(o)))
            else:
                self.unknown('%s: labels not understood' % case.entry)

    @staticmethod
    def checked_otherwise(S, o):
        """a condition of the path compares something computed from what the caller chose"""
        atoms = {t for t in T.walk(S) if t and t[0] == 'seq'}
        for c, _ in o.taken:
            for t in T.walk(c):
                if t and t[0] == 'set' and len(t) == 2 and t[1][0] != 'seq' and \
                        any(u in atoms for u in T.walk(t[1])):
                    return True
        return False

    @staticmethod
    def user(S):
        """labels the caller chose, taken over without a check"""
        return S[0] == 'seq' or S[0] == 'cat' and seqs.understood(S) or S[0] == 'comp' and S[3] == TRUE and \
            len(S[1]) == 1 and (S[2][0] == 'app' and S[2][1].startswith('user:') or
                                S[2][0] == 'at' and S[2][2][0] == 'at' and S[2][2][1][0] == 'seq') or \
            S[0] == 'lst' and len(S) > 2


CHECKS = [C27, C24, C07]
