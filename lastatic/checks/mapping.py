"""C11: the mappings between label lists, in Python and in Cython."""
import os
import re

from ..core import Check, path_text
from .. import terms as T
from .. import oracle as O
from .. import seqmodel
from ..catalog import func, sym, arg
from ..drivers import tstr, mkseqin
from ..terms import K, TRUE, NONE
from ..values import *

FROM, TO = ('lab', 'FROM', 0), ('seq', 'TO', 'label')
PYX = 'la.src.cflabel'


def lst(t):
    return arg(lambda I: I.new(PyList(None, t), ('in', t[1], 'list')), '<labels %s>' % t[1])


def member(x, S):
    return ('in', x, ('set', S))


class Mapping(Check):
    id = 'C11'
    floor = 20
    rule = ('the lists computed by each version (Python and Cython) are compared with the specification as terms: '
            'position of the equal label, in the order of the second list; missing ones raise, are skipped or get '
            'the fill value, as asked')

    @property
    def prog(self):
        if self._prog is None:
            p = super().prog
            p.overrides[('la.cflabel', 'listmap')] = 'missing'
            p.overrides[('la.cflabel', 'listmap_fill')] = 'missing'
            if p.add_pyx(PYX, 'la/src/cflabel.pyx') is None:
                self.unknown('the Cython source is not understood: %s' % '; '.join(p.errors))
        return self._prog

    @property
    def I(self):
        I = super().I
        I.strict_keys = True
        return I

    def cases(self):
        mods = ['la.flabel'] + ([PYX] if PYX in self.prog.modules else [])
        for mod in mods:
            I = self.I
            env = I.load(mod)
            a, b = lst(FROM), lst(TO)
            for kw in ({}, {'ignore_unmappable': False}, {'ignore_unmappable': True},
                       {'ignore_unmappable': sym('ignore', 'bool')}):
                yield func(mod, 'listmap', [a, b], kw, spec='listmap')
            for kw in ({}, {'fill': sym('fill', 'int')}):
                yield func(mod, 'listmap_fill', [a, b], kw, spec='listmap_fill')
        self.counters()
        for nd in (1, 2, 3):
            for kw in ({}, {'order': 'C'}, {'order': 'F'}):
                labels = [lst(('lab', 'A', k)) for k in range(nd)]
                yield func('la.flabel', 'flattenlabel', [labels], kw, spec='flattenlabel', nd=nd)
        yield func('la.flabel', 'list2index', [lst(TO)], spec='list2index')

    def counters(self):
        """positions held in C variables too small for a position"""
        path = os.path.join(self.prog.root, 'la/src/cflabel.pyx')
        if not os.path.exists(path):
            return
        with open(path) as f:
            lines = f.read().split('\n')
        for i, line in enumerate(lines):
            if re.match(r'\s*(?:cdef\s+)?(?:(?:un)?signed\s+)?(?:char|short|np\.u?int(?:8|16)_t)(?:\s+int)?\s+\w+\s*(?:[=,].*)?$',
                        line.split('#')[0].rstrip()) and '"""' not in line:
                self.fail('cflabel.pyx narrow counter', 'la/src/cflabel.pyx:%d: %s cannot hold every position' % (
                    i + 1, line.strip()))
        self.ok('cflabel.pyx: C variables', '%d lines' % len(lines))

    def want(self, I, case, ignore=False):
        """('return', [terms]) or ('raise', types)"""
        j = T.fresh_j()
        b, x = ((j, T.length(TO)),), T.at(TO, ('j', j))
        if case.meta['spec'] == 'listmap':
            if ignore:
                return [T.comp(b, ('pos', FROM, x), member(x, FROM))]
            return [T.comp(b, ('pos', FROM, x), TRUE)]
        if case.meta['spec'] == 'listmap_fill':
            f = case.meta['kw'].get('fill')
            f = ('sym', 'fill', 'int') if f is not None else K(0)
            return [T.comp(b, ('ite', member(x, FROM), ('pos', FROM, x), f), TRUE),
                    T.comp(b, ('j', j), ('not', member(x, FROM)))]
        if case.meta['spec'] == 'list2index':
            return [TO, TO]
        nd = case.meta['nd']
        js = [T.fresh_j() for _ in range(nd)]
        labs = [('lab', 'A', k) for k in range(nd)]
        order = list(range(nd))
        if case.meta['kw'].get('order') == 'F':
            order.reverse()
        return [T.comp(tuple((js[k], T.length(labs[k])) for k in order),
                       ('tup',) + tuple(T.at(labs[k], ('j', js[k])) for k in range(nd)), TRUE)]

    def missing_term(self):
        j = T.fresh_j()
        x = T.at(TO, ('j', j))
        return ('some', T.comp(((j, T.length(TO)),), ('not', member(x, FROM)), TRUE))

    def visit(self, I, o, case):
        spec = case.meta['spec']
        mod = case.meta['mod']
        name = '%s.%s' % ('cflabel.pyx' if mod == PYX else mod, case.entry)
        ig = case.meta['kw'].get('ignore_unmappable', False)
        ignore = ig if isinstance(ig, bool) else I.facts.query(('sym', 'ignore', 'bool'))
        if spec == 'listmap' and ignore is None:
            return self.unknown('%s: path does not depend on ignore_unmappable' % name)
        if o.kind == 'raise':
            if spec != 'listmap':
                return self.fail('%s raises' % name, '%s: %r raises %s when %s' % (name, case, o.exc.name, path_text(o)))
            r = seqmodel.compare(I, [(self.missing_term(), TRUE)])
            if ignore or r[0] == 'differ':
                return self.fail('%s raises' % name, '%s: %r raises %s when %s' % (name, case, o.exc.name, path_text(o)))
            if o.exc.name != 'KeyError':
                return self.fail('%s raises' % name, '%s: %r raises %s, not KeyError' % (name, case, o.exc.name))
            if r[0] == 'same':
                return self.ok('%s: refuses' % name, '%r: KeyError when %s' % (case, path_text(o)))
            return self.unknown('%s: condition of the KeyError not understood (%s)' % (name, r[1]))
        if spec == 'listmap' and not ignore:
            r = seqmodel.compare(I, [(self.missing_term(), T.FALSE)])
            if r[0] == 'differ':
                return self.fail('%s does not raise' % name, '%s: %r returns although a label is missing: %s' % (
                    name, case, path_text(o)))
            if r[0] == 'same':
                self.ok('%s: returns only if all labels are there' % name, path_text(o))
            else:
                self.unknown('%s: condition of the return not understood (%s)' % (name, r[1]))
        want = self.want(I, case, ignore)
        v = o.value
        if spec == 'listmap':
            got = [I.seqterm_of(v)] if not isinstance(v, Unk) else [None]
        else:
            _, items = I.seq_of(v) if isinstance(v, (TupleV, PyList)) else (None, None)
            if items is None:
                return self.unknown('%s: result not understood' % name)
            if len(items) != len(want):
                return self.fail('%s returns' % name, '%s: %r returns %d lists' % (name, case, len(items)))
            got = [None if isinstance(x, (Unk, Sym)) else I.seqterm_of(x) for x in items]
        if spec == 'list2index' and None not in got:
            # distinct elements and positions that give the list back
            idx, u = [I.facts.norm(g) for g in got]
            j = T.fresh_j()
            got = [('comp', ((j, T.length(idx)),), ('at', u, ('at', idx, ('j', j))), TRUE), ('set', u), ('len', u)]
            want = [TO, ('set', TO), ('len', ('set', TO))]
        for i, (g, w) in enumerate(zip(got, want)):
            if g is None:
                self.unknown('%s: result not understood' % name)
                continue
            g = I.facts.norm(g)
            if g == I.facts.norm(w) or g == w:
                self.ok('%s: list %d' % (name, i), '%r: %s' % (case, tstr(w)))
                continue
            r = seqmodel.compare(I, [(g, w)])
            if r[0] == 'same':
                self.ok('%s: list %d' % (name, i), '%r: %s is %s (%d points)' % (case, tstr(g), tstr(w), r[1]))
            elif r[0] == 'differ':
                self.fail('%s result %d' % (name, i), '%s: %r returns %s, not %s: with %s it is %s, should be %s; path: '
                          '%s' % (name, case, tstr(g), tstr(w), r[2].val, r[3], r[4], path_text(o)))
            else:
                self.unknown('%s: result not understood (%s)' % (name, r[1]))


CHECKS = [Mapping]
