"""C04 (only equal-labelled cells are combined), C05 (label sets of joins) and
C06 (absent cells are marked missing, nothing else is)."""
from ..core import Check, where_of, path_text
from ..values import *
from .. import catalog, oracle
from .. import terms as T
from ..cells import *
from ..terms import K, TRUE, FALSE
from ..drivers import tstr
from .values import content_of


def srtlike(S):
    """is the sequence in sorted order by construction"""
    if S[0] == 'srt':
        return S[2] is False or S[2] == FALSE
    if S[0] == 'slc':
        return S[4] in (T.NONE, K(1)) and srtlike(S[1])
    if S[0] == 'comp' and len(S[1]) == 1 and S[2][0] == 'at' and S[2][2] == ('j', S[1][0][0]):
        return srtlike(S[2][1])
    return False


class C05(Check):
    id = 'C05'
    rule = ('set algebra over label terms: for every join of every axis the label list of the result is, as a set, the '
            'intersection (inner) or union (outer) of the label lists of the operands, in sorted order unless they '
            'are the same list; it is the list of the left or the right operand for left and right, the list asked for '
            'in morph, and unchanged for skip and for the other axes')
    floor = 300
    GROUPS = {'binary', 'align', 'align_raw', 'align_axis', 'merge', 'morph', 'stack', 'query'}

    def cases(self):
        for case in catalog.everything(self.thorough):
            g = case.meta.get('group')
            if g == 'query' and case.entry not in ('union', 'intersection'):
                continue
            if g in self.GROUPS:
                yield case
        for case in catalog.join_cases():
            yield case

    def acceptable(self, I, a, b, join, more=()):
        a, b = I.facts.norm(a), I.facts.norm(b)
        if more:
            labs = [a, b] + [I.facts.norm(x) for x in more]
            if join in ('left', 'right'):
                return [labs[0 if join == 'left' else -1]], None
            raw = T.mkset(labs[0])
            for x in labs[1:]:
                raw = (T.inter if join in ('inner', 'intersection') else T.union)(raw, T.mkset(x))
            s = I.facts.norm(raw)
            return [I.facts.norm(T.srt(s, FALSE)), I.facts.norm(T.srt(raw, FALSE))], s
        if join == 'left':
            return [a], None
        if join == 'right':
            return [b], None
        op = T.inter if join in ('inner', 'intersection') else T.union
        raw = op(T.mkset(a), T.mkset(b))
        s = I.facts.norm(raw)
        out = [I.facts.norm(T.srt(s, FALSE)), I.facts.norm(T.srt(raw, FALSE))]
        if I.facts.query(T.eq(a, b)) is True:
            out = [a, b]
        return out, s

    def judge(self, I, o, case, got, a, b, join, what, more=()):
        want, asset = self.acceptable(I, a, b, join, more)
        got = I.facts.norm(got)
        if got in want or any(I.facts.query(T.eq(got, w)) is True for w in want):
            return self.ok('%s %s' % (case.entry, join), '%r %s: %s' % (case, what, tstr(got)[:200]))
        if asset is not None and not T.isk(got):
            s = I.facts.norm(T.mkset(got))
            if s == asset and (srtlike(got) or I.facts.query(T.eq(a, b)) is True):
                return self.ok('%s %s' % (case.entry, join), '%r %s: %s' % (case, what, tstr(got)[:200]))
            empty = I.facts.query(T.eq(('len', asset), K(0)))
            if empty is True and I.facts.query(T.eq(T.length(got), K(0))) is True:
                return self.ok('%s %s' % (case.entry, join))
        if not T.isk(got) and T.isint(T.length(got)) and T.length(got)[2] == 0 and \
                any(I.facts.query(T.eq(T.length(w), K(0))) is True for w in want):
            return self.ok('%s %s' % (case.entry, join))
        if oracle.unknown_term(got):
            return self.unknown('%s: labels not understood' % case.entry)
        self.fail('%s: label set of %s join' % (case.entry, join),
                  '%r: %s is %s, documented %s; path: %s'
                  % (case, what, tstr(got)[:300], tstr(want[0])[:300], path_text(o)))

    def seqs(self, I, v):
        t, items = I.seq_of(v)
        if items is None:
            return None
        return [I.freeze(x) if not isinstance(x, Unk) else ('opq', 0) for x in items]

    def labels(self, I, l):
        return self.seqs(I, l.attrs['label'])

    def visit(self, I, o, case):
        if o.kind != 'return':
            return
        g, m = case.meta['group'], case.meta
        nd = m.get('nd', 2)
        lab = lambda w, k: ('lab', w, k)
        join = m.get('join', 'inner')
        joins = join if isinstance(join, list) else [join] * nd
        if g in ('binary', 'align'):
            ls = list(oracle.larrys(o.value))
            if len(ls) != (1 if g == 'binary' else 2):
                return self.unknown('%s: result not understood' % case.entry)
            for i, (p, l) in enumerate(ls):
                t = self.labels(I, l)
                if t is None or len(t) != nd:
                    self.unknown('%s: labels not understood' % case.entry)
                    continue
                for k in range(nd):
                    if joins[k] == 'skip':
                        self.judge(I, o, case, t[k], lab('AB'[i], k), lab('AB'[i], k), 'left', '%s label[%d]' % (p, k))
                    else:
                        self.judge(I, o, case, t[k], lab('A', k), lab('B', k), joins[k], '%s label[%d]' % (p, k))
        elif g == 'align_raw':
            if not isinstance(o.value, TupleV) or len(o.value.items) != 5:
                return self.unknown('align_raw: result not understood')
            t, items = I.seq_of(o.value.items[2])
            if items is None or len(items) != nd:
                return self.unknown('align_raw: result not understood')
            for k in range(nd):
                if joins[k] == 'skip':
                    if isinstance(items[k], Const) and items[k].v is None:
                        self.ok('align_raw skip')
                    else:
                        self.fail('align_raw: label of skipped axis', '%r: label[%d] is not None' % (case, k))
                else:
                    self.judge(I, o, case, I.freeze(items[k]), lab('A', k), lab('B', k), joins[k], 'label[%d]' % k)
        elif g == 'align_axis':
            ls = list(oracle.larrys(o.value))
            n = m.get('n', 2)
            if len(ls) != n:
                return self.unknown('%s: result not understood' % case.entry)
            axs = m.get('axes') or [m['axis'] % nd] * n
            nds = m.get('nds') or [nd] * n
            want = [lab('ABCD'[i], axs[i]) for i in range(n)]
            for i, (p, l) in enumerate(ls):
                t = self.labels(I, l)
                if t is None or len(t) != nds[i]:
                    self.unknown('%s: labels not understood' % case.entry)
                    continue
                for k in range(nds[i]):
                    w = 'ABCD'[i]
                    if k == axs[i]:
                        self.judge(I, o, case, t[k], want[0], want[1], join, '%s label[%d]' % (p, k), want[2:])
                    else:
                        self.judge(I, o, case, t[k], lab(w, k), lab(w, k), 'left', '%s label[%d]' % (p, k))
        elif g == 'merge':
            for p, l in oracle.larrys(o.value):
                t = self.labels(I, l)
                for k in range(nd):
                    self.judge(I, o, case, t[k], lab('A', k), lab('B', k), 'outer', '%s label[%d]' % (p, k))
        elif g == 'morph':
            for p, l in oracle.larrys(o.value):
                t = self.labels(I, l)
                if t is None or len(t) != nd:
                    self.unknown('%s: labels not understood' % case.entry)
                    continue
                ax = m['axis'] % nd if m.get('axis') is not None else None
                for k in range(nd):
                    if case.entry == 'larry.morph_like':
                        b = lab('B', k)
                    elif k == ax:
                        b = ('seq', 'L', 'label')
                    else:
                        b = lab('A', k)
                    self.judge(I, o, case, t[k], lab('A', k), b, 'right', '%s label[%d]' % (p, k))
        elif g == 'stack':
            for p, l in oracle.larrys(o.value):
                t = self.labels(I, l)
                if t is None or len(t) != nd + 1:
                    self.unknown('%s: labels not understood' % case.entry)
                    continue
                for k in range(nd):
                    self.judge(I, o, case, t[k + 1], lab('A', k), lab('B', k),
                               {'union': 'outer', 'intersection': 'inner'}[m['mode']], '%s label[%d]' % (p, k + 1))
        elif g == 'query':
            ax = m['args'][0] % nd
            self.judge(I, o, case, I.freeze(o.value), lab('A', ax), lab('B', ax),
                       'outer' if case.entry == 'union' else 'inner', 'result',
                       [lab(w, ax) for w in 'CD'[:m.get('n', 2) - 2]])


class C04(Check):
    id = 'C04'
    rule = ('dimension-name analysis: wherever the data of two larrys meets in one elementwise operation, both operands '
            'carry the same label sequence along every axis; on every returning path no cell of one operand is '
            'combined with a cell of another label of the other')
    floor = 200

    def cases(self):
        for case in catalog.everything(self.thorough):
            if case.meta.get('group') in ('binary', 'merge', 'stack', 'group', 'setitem_larry', 'lix_set_larry') or \
                    case.meta.get('mask'):
                yield case
        for case in catalog.join_cases():
            if case.meta['group'] == 'binary':
                yield case

    def visit(self, I, o, case):
        n = 0
        for e in o.events:
            if e['kind'] == 'misalign':
                n += 1
                if o.kind != 'return':
                    continue
                ds = [I.facts.norm(e['d1']), I.facts.norm(e['d2'])]
                if any(oracle.unknown_term(d) for d in ds):
                    self.unknown('%s: operand not understood' % case.entry)
                    continue
                if not self.mixes(ds) or oracle.same_labels(I, *ds):
                    continue
                return self.fail('%s: cells of different labels combined' % case.entry,
                                 '%r: %s combines an axis ordered by %s with one ordered by %s; path: %s'
                                 % (case, e['what'], tstr(ds[0])[:200], tstr(ds[1])[:200], path_text(o)), where_of(e))
        if o.kind == 'return':
            self.ok(case.entry, '%r: all operations combine axes with equal labels' % case)

    @staticmethod
    def mixes(ds):
        """one axis from each operand"""
        who = [set(x[1] for x in T.walk(d) if x and x[0] == 'lab' and len(x) == 3) for d in ds]
        return who[0] != who[1] and bool(who[0] and who[1])


class C06(Check):
    id = 'C06'
    rule = ('region analysis: where an axis of a result has labels the operand does not have, the cells marked missing '
            'are exactly those positions, on every returning path; the marker is the one of the data type (NaN, empty '
            'string, None), integer and boolean data is cast to float first or the call raises; no cell of a result '
            'is left uninitialised or filled with data of another label')
    floor = 300
    GROUPS = {'binary', 'align', 'align_raw', 'align_axis', 'merge', 'morph', 'stack'}

    def cases(self):
        for case in catalog.everything(self.thorough):
            if case.meta.get('group') in self.GROUPS:
                yield case
        for case in catalog.join_cases():
            yield case

    def visit(self, I, o, case):
        if o.kind != 'return':
            return
        vals = [(p, l.attrs.get('x')) for p, l in oracle.larrys(o.value)]
        if case.meta['group'] == 'align_raw' and isinstance(o.value, TupleV):
            vals = [('x%d' % (i + 1), x) for i, x in enumerate(o.value.items[:2])]
        for p, x in vals:
            if not isinstance(x, Arr):
                self.unknown('%s: result not understood' % case.entry)
                continue
            self.bad = None
            self.vague = False
            self.marks = 0
            dims = [I.facts.norm(d) for d in x.dims]
            if any(d[0] in ('pos', 'anon') for d in dims):
                # an array made in one piece: its axes are the labels of the result
                l = dict(oracle.larrys(o.value)).get(p)
                labs = oracle.larry_parts(I, l)[2] if l is not None and oracle.larry_parts(I, l) else None
                if case.meta['group'] == 'align_raw':
                    labs = self.raw_labels(I, o, x, p)
                if labs is None or len(labs) != len(dims):
                    self.unknown('%s: axis not understood' % case.entry)
                    continue
                dims = [labs[i] if d[0] in ('pos', 'anon') and not T.isk(labs[i]) else d for i, d in enumerate(dims)]
            if any(oracle.unknown_term(d) or d[0] in ('pos', 'anon') for d in dims):
                self.unknown('%s: axis not understood' % case.entry)
                continue
            self.who = None
            if case.meta['group'] in ('align', 'align_raw', 'align_axis'):
                self.who = 'B' if p == 'x2' else 'ABCD'[int(p[7])] if p.startswith('result[') else 'A'
            elif case.meta['group'] == 'morph':
                self.who = 'A'
            self.walk(I, I.facts.norm(x.buf.content), dims, [], I.kindof(x))
            if self.bad is not None:
                self.fail('%s: %s' % (case.entry, self.bad[0]),
                          '%r: %s: %s; path: %s' % (case, p, self.bad[1], path_text(o)))
            elif self.vague:
                self.unknown('%s: content not understood' % case.entry)
            else:
                self.ok('%s %s' % (case.entry, case.meta.get('join', '')),
                        '%r: %s has %d regions of missing cells, each exactly the absent labels: %s'
                        % (case, p, self.marks, tstr(I.facts.norm(x.buf.content))[:250]))

    def raw_labels(self, I, o, x, p):
        t, items = I.seq_of(o.value.items[2])
        if items is None:
            return None
        return [I.facts.norm(I.freeze(v)) if not isinstance(v, Unk) else ('opq', 'unk') for v in items]

    def flag(self, what, text):
        if self.bad is None:
            self.bad = (what, text)

    def walk(self, I, c, dims, covered, kinds):
        """covered: [(axis name, rows)] of the regions already overwritten"""
        h = c[0]
        if h == 'ext':
            X, D, rows, v = c[1:5]
            self.marks += 1
            self.marker(I, X, v)
            self.walk(I, X, dims, covered + [(D, rows, True)], kinds)
        elif h == 'junk':
            X, D, rows = c[1:4]
            self.walk(I, X, dims, covered + [(D, rows, False)], kinds)
        elif h == 'castc':
            self.walk(I, c[1], dims, covered, kinds)
        elif h == 'ew':
            for x in c[2]:
                self.walk(I, x, dims, covered, kinds)
        elif h == 'where':
            for x in c[2:]:
                self.walk(I, x, dims, covered, kinds)
        elif h == 'kc' or h == 'nanlike':
            if not T.isk(c[1]) or c[1] not in (NAN, K(''), K(None)) or h != 'kc' or self.who is None:
                self.vague = True
            elif not self.nothing_in(I, dims):
                self.flag('present cells marked missing',
                          'every cell of %s is marked missing although some labels are present' % self.who)
        elif h == 'upd':
            # items written one after the other along the first axis
            items = {}
            t = c
            while t[0] == 'upd' and len(t[2]) == 1 and t[2][0][1][0] == 'int' and T.isk(t[2][0][1][1]):
                items.setdefault(t[2][0][1][1][2], t[3])
                t = t[1]
            n = I.facts.norm(T.length(dims[0]))
            if t[0] == 'upd' or not T.isk(n) or covered:
                self.vague = True
                return
            if sorted(items) != list(range(n[2])):
                self.flag('item left out', 'only items %s of %s are written' % (sorted(items), n[2]))
                return
            for i in sorted(items):
                self.who = 'ABCD'[i]
                self.walk(I, items[i], dims[1:], covered, kinds)
        elif h == 'X':
            self.leaf(I, c[1], dims, covered)
        else:
            self.vague = True

    def absent(self, I, D, S):
        j = T.fresh_j()
        n = T.length(D)
        return I.facts.norm(T.comp(((j, n),), ('j', j), T.neg(T.member(T.at(D, ('j', j)), T.mkset(S)))))

    def leaf(self, I, who, dims, covered):
        n = len([1 for k in range(4) if ('lab', who, k) in I.known_labs]) if hasattr(I, 'known_labs') else None
        labs = [d for d in dims]
        own = [I.facts.norm(('lab', who, k)) for k in range(len(dims))]
        off = len(dims) - self.ndim(who, dims)
        for i, D in enumerate(dims):
            k = i - off
            if k < 0:
                continue
            S = own[k]
            if D == S or D == ONE:
                rs = [r for d, r, f in covered if d == D and f]
                if rs and D == S:
                    for r in rs:
                        if not self.emptyrows(I, r):
                            self.flag('present cells marked missing',
                                      'cells of %s that have a label are overwritten: rows %s' % (who, tstr(r)[:200]))
                continue
            mine = [(r, f) for d, r, f in covered if d == D]
            want = self.absent(I, D, S)
            if self.within(I, D, S) or self.emptyrows(I, want):
                for r, f in mine:
                    if f and not self.emptyrows(I, r):
                        self.flag('present cells marked missing',
                                  'cells of %s that have a label are overwritten: rows %s of %s'
                                  % (who, tstr(r)[:200], tstr(D)[:100]))
                continue
            if any(oracle.unknown_term(x) for x in (D, want)):
                self.vague = True
                continue
            for r, f in mine:
                if r == want:
                    if not f and not self.emptyrows(I, r):
                        self.flag('absent cells left as they are',
                                  'the cells of %s at labels it does not have are not marked missing: rows %s of %s'
                                  % (who, tstr(r)[:200], tstr(D)[:200]))
                    break
            else:
                if not mine:
                    self.flag('absent cells left as they are',
                              'axis %s has labels that are not in %s.label[%d] but no missing cells'
                              % (tstr(D)[:200], who, k))
                elif any(oracle.unknown_term(r) for r, f in mine):
                    self.vague = True
                else:
                    self.flag('wrong cells marked missing',
                              'rows %s of %s are marked, the absent ones are %s'
                              % (tstr(mine[0][0])[:200], tstr(D)[:200], tstr(want)[:200]))

    def nothing_in(self, I, dims):
        """no label of the axis is in the operand, for one of the axes"""
        for k, D in enumerate(dims):
            S = I.facts.norm(('lab', self.who, k))
            w = self.absent(I, D, S)
            if I.facts.query(T.eq(T.length(w), T.length(D))) is True or \
                    I.facts.query(T.eq(T.length(D), K(0))) is True or \
                    I.facts.query(T.eq(T.length(S), K(0))) is True:
                return True
        return False

    @staticmethod
    def within(I, D, S):
        """is every label of D one of S"""
        if T.subset(T.mkset(D), T.mkset(S)):
            return True
        for l in I.facts.layers:                    # S == sorted(X) on this path
            for k, v in l.sub.items():
                if v == D and k[0] == 'srt' and T.subset(k[1], T.mkset(S)):
                    return True
        return False

    @staticmethod
    def ndim(who, dims):
        return len(dims)

    def emptyrows(self, I, r):
        n = T.length(r)
        if r[0] == 'comp' and len(r[1]) == 1 and r[3][0] == 'not' and r[3][1][0] == 'in':
            e, s = r[3][1][1:3]
            if e[0] == 'at' and s[0] == 'set' and self.within(I, e[1], s[1]):
                return True
        return I.facts.query(T.eq(n, K(0))) is True or I.facts.query(T.lt(K(0), n)) is False

    def marker(self, I, X, v):
        """is v the missing marker for data of the kind of X"""
        if not (v[0] == 'k' or v[0] == 'kc'):
            self.vague = True
            return
        v = v[1] if v[0] == 'kc' else v
        X = strip(X)
        if X[0] != 'X':
            return
        kinds = I.facts.kind(('kv', X[1]))
        for kind, mark in (('str', K('')), ('object', K(None))):
            if kinds == frozenset([kind]) and v != mark:
                self.flag('wrong missing marker', '%s data is marked with %s' % (kind, tstr(v)))
        if kinds <= frozenset(['inexact', 'int', 'bool']) and v != NAN:
            self.flag('wrong missing marker', 'numbers are marked with %s' % tstr(v))


CHECKS = [C04, C05, C06]
