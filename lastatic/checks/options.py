"""C21 (negative axes), C12 (options are honoured), C13 (bad options are
rejected): comparisons of all paths of one entry point in sibling contexts."""
from ..core import Check, where_of, path_text
from ..values import *
from .. import catalog, oracle
from ..drivers import tstr


class Item(object):
    weight = 0

    def __init__(self, key, cases):
        self.key = key
        self.cases = cases
        self.weight = max(c.weight for c in cases)


def show_outcome(k):
    conds, kind, r, st = k
    return '%s %s when %s' % (kind, tstr(r)[:300], ' and '.join(sorted(('' if v else 'not ') + tstr(t)[:120]
                                                                          for t, v in conds)) or 'always')


class C21(Check):
    id = 'C21'
    rule = ('sibling comparison: the set of (path condition, outcome) of every entry point that takes an axis, '
            'computed with axis=k and with axis=k-ndim, must be the same')
    floor = 300

    def run(self):
        groups = {}
        for case in catalog.everything(self.thorough):
            ax = case.meta.get('axis')
            nd = case.meta.get('nd', 2)
            if ax is None:
                continue
            if case.meta.get('group') == 'insertaxis':
                nd += 1
            a1 = ax % nd
            ax2 = case.meta.get('axis2')
            d = case.desc
            key = (case.entry, nd, a1, ax2 % nd if ax2 is not None else None, tuple(case.meta.get('axes') or ()),
                   tuple(catalog.show(x) for i, x in enumerate(case.meta['args']) if not self.axisarg(case, i)),
                   tuple(sorted((k, catalog.show(v)) for k, v in case.meta['kw'].items() if k != 'axis')),
                   str(case.meta.get('kind')))
            groups.setdefault(key, []).append(case)
        self.sweep([Item(k, v) for k, v in groups.items() if len(v) > 1], self.pair)

    @staticmethod
    def axisarg(case, i):
        """is positional argument i the axis?"""
        a = case.meta['args'][i]
        return isinstance(a, int) and not isinstance(a, bool) and a in (case.meta.get('axis'), case.meta.get('axis2'))

    def outcomes(self, case):
        out = []
        inplace = case.meta.get('group') == 'inplace'
        r = self.explore(case, lambda I, o: out.append(oracle.outcome(I, o, inplace)))
        if r is None or r.capped or r.ended:
            return None
        return out

    def pair(self, item):
        ref = item.cases[0]
        a = self.outcomes(ref)
        for other in item.cases[1:]:
            b = self.outcomes(other)
            if a is None or b is None:
                self.unknown('%s: paths not enumerated' % ref.entry)
                continue
            sa, sb = set(a), set(b)
            if sa == sb:
                self.ok(ref.entry, '%r and %r: %d equal outcomes, e.g. %s'
                        % (ref, other, len(sa), show_outcome(sorted(sa, key=repr)[0])[:250] if sa else 'none'))
                continue
            da, db = sorted(sa - sb, key=repr), sorted(sb - sa, key=repr)
            if any(oracle.opaque(x) for x in da + db):
                self.unknown('%s: outcomes not comparable' % ref.entry)
                continue
            self.fail('%s: negative axis' % ref.entry,
                      '%r and %r differ: %s  //  %s'
                      % (ref, other, show_outcome(da[0]) if da else 'nothing more',
                         show_outcome(db[0]) if db else 'nothing more'))


def norm_axis(case):
    ax = case.meta.get('axis')
    nd = case.meta.get('nd', 2)
    if case.meta.get('group') == 'insertaxis':
        nd += 1
    return ax % nd if ax is not None else None


class C12(Check):
    id = 'C12'
    rule = ('dependence analysis: every argument that is an option (axis, window, ddof, order, join, fill value, ...) '
            'must reach the outcome: a symbolic option value must occur in a returned value, in a written cell or in '
            'the condition of a returning path; contexts that differ only in the value of an enumerated option or '
            'in the axis must not have the same set of outcomes')
    floor = 300

    def run(self):
        cases = list(catalog.everything(self.thorough)) + list(catalog.option_cases())
        items = []
        for case in cases:
            syms = self.symbols(case)
            if syms:
                items.append(Item((case.entry, 'symbols'), [case]))
                items[-1].syms = syms
        groups = {}
        for case in cases:
            if case.meta.get('axis') is None or case.meta.get('axis2') is not None or norm_axis(case) != case.meta['axis']:
                continue
            key = ('axis', case.entry, case.meta.get('nd'),
                   tuple(catalog.show(x) for i, x in enumerate(case.meta['args']) if not C21.axisarg(case, i)),
                   tuple(sorted((k, catalog.show(v)) for k, v in case.meta['kw'].items() if k != 'axis')),
                   str(case.meta.get('kind')))
            groups.setdefault(key, []).append(case)
        for case in cases:
            opt = case.meta.get('option')
            if opt is not None:
                groups.setdefault(('option', case.entry, opt, case.meta.get('nd'), case.meta.get('axis')), []).append(case)
        for key, cs in groups.items():
            cs = list(dict((repr(c), c) for c in cs).values())
            if key[0] == 'axis':
                cs = list(dict((norm_axis(c), c) for c in cs).values())
            if len(cs) > 1:
                items.append(Item(key, cs))
                items[-1].syms = None
        self.sweep(items, self.item_job)

    @staticmethod
    def symbols(case):
        out = set()

        def walk(v):
            if isinstance(v, Sym):
                if v.term[0] == 'sym':
                    out.add(v.term)
            elif isinstance(v, (tuple, list)):
                for x in v:
                    walk(x)
            elif isinstance(v, slice):
                walk((v.start, v.stop, v.step))
            elif isinstance(v, SliceV):
                walk((v.a, v.b, v.c))
        walk(case.meta.get('args', ()))
        walk(list(case.meta.get('kw', {}).values()))
        walk(case.meta.get('index'))
        return out

    def item_job(self, item):
        if item.syms is not None:
            return self.symbolic(item.cases[0], item.syms)
        outs = []
        for c in item.cases:
            out = []
            r = self.explore(c, lambda I, o, c=c, out=out: out.append(
                oracle.outcome(I, o, c.meta.get('group') == 'inplace')))
            outs.append(None if r is None or r.capped or r.ended else set(out))
        for i in range(len(outs)):
            for j in range(i):
                a, b = outs[i], outs[j]
                if a is None or b is None:
                    self.unknown('%s: paths not enumerated' % item.cases[i].entry)
                elif a != b:
                    self.ok('%s %s' % (item.cases[i].entry, item.key[0]), '%r and %r have different outcomes'
                            % (item.cases[i], item.cases[j]))
                elif any(oracle.opaque(x) for x in a):
                    self.unknown('%s: outcome not understood' % item.cases[i].entry)
                else:
                    self.fail('%s: %s has no effect' % (item.cases[i].entry, 'axis' if item.key[0] == 'axis' else item.key[2]),
                              '%r and %r have the same outcomes: %s'
                              % (item.cases[i], item.cases[j], '; '.join(show_outcome(x) for x in sorted(a, key=repr)[:3])))

    # documented: with an axis, only the other axes are cut, and a 1d larry has no other
    NOEFFECT = {('larry.cut_missing', 1, 0, 'fraction'), ('larry.cut_missing', 1, -1, 'fraction')}

    def symbolic(self, case, syms):
        syms = set(s for s in syms
                   if (case.entry, case.meta.get('nd'), case.meta.get('axis'), s[1]) not in self.NOEFFECT)
        seen = set()
        vague = [False]
        returns = [0]

        def visit(I, o):
            if o.kind != 'return':
                return
            returns[0] += 1
            k = oracle.outcome(I, o, True)
            st = k[0], k[2], k[3]
            for s in syms:
                if oracle.mentions(st, s):
                    seen.add(s)
            if oracle.opaque(st) or oracle.has_head(st, ('loop',)):
                vague[0] = True
        r = self.explore(case, visit)
        if r is None:
            return
        for s in sorted(syms, key=repr):
            if s in seen:
                self.ok(case.entry, '%r: %s reaches the outcome' % (case, s[1]))
            elif vague[0] or not returns[0] or r.capped or r.ended:
                self.unknown('%s: %s not traced' % (case.entry, s[1]))
            else:
                self.fail('%s: %s has no effect' % (case.entry, s[1]),
                          '%r: no returned value and no condition of a returning path depends on %s' % (case, s[1]))


class C13(Check):
    id = 'C13'
    rule = ('must-raise analysis: with an option value outside the documented set, every path of the entry point ends '
            'in an exception, and no argument has been written before it')
    floor = 20

    def cases(self):
        return catalog.bogus_cases()

    def visit(self, I, o, case):
        if o.kind == 'return':
            if isinstance(o.value, Unk):
                return self.unknown('%s: outcome not understood' % case.entry)
            return self.fail('%s accepts an undocumented %s' % (case.entry, case.meta['option']),
                             '%r returns instead of raising; path: %s' % (case, path_text(o)))
        for e in o.events:
            if e['kind'] == 'mutate' and e['origin'][0] == 'in':
                return self.fail('%s writes before rejecting %s' % (case.entry, case.meta['option']),
                                 '%r: %s reaches %s before the exception' % (case, e['what'], e['origin'][2]), where_of(e))
        self.ok('%s %s' % (case.entry, case.meta['option']),
                '%r raises %s when %s' % (case, o.exc.name, path_text(o, 4)))


CHECKS = [C21, C12, C13]
