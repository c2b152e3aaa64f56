"""C03 (data stays with its label) and C07 (results are valid larrys)."""
from ..core import Check, where_of, path_text
from ..values import *
from .. import catalog, fields, oracle
from .. import terms as T
from ..drivers import tstr


class C03(Check):
    id = 'C03'
    rule = ('dimension-name analysis: array axes carry the label sequence that names their coordinates through every '
            'index, take, transpose, sort and reduction; on every returning path the label list stored for axis k of '
            'a result equals the name carried by axis k of its data, and no element was combined with an element '
            'of another coordinate')
    floor = 500
    SKIP = {'larry', 'larry.maplabel', 'larry.shufflelabel', 'larry.lag'}

    def cases(self):
        for case in catalog.everything(self.thorough):
            if case.entry not in self.SKIP:
                yield case

    def visit(self, I, o, case):
        if o.kind == 'return':
            for path, l in oracle.larrys(o.value):
                self.one(I, o, case, path, l)

    @staticmethod
    def crossed(I, content):
        """a place where cells along one axis of an operand meet another axis of the same operand"""
        for t in T.walk(content):
            if t and t[0] == 'mis' and len(t) == 4:
                if t[2][0] == 'flat' and t[3][0] == 'flat':
                    # the cells of all axes, written back in another nesting; an axis of one element does not count
                    a, b = [[d for d in D[1] if d[0] == 'lab' and I.facts.query(T.eq(T.length(d), K(1))) is not True]
                            for D in t[2:]]
                    if len(a) == len(b) > 1 and a != b and sorted(a) == sorted(b):
                        return t
                    continue
                a, b = [fields.Field.base(D) if not T.isk(D) else D for D in t[2:]]
                if a[0] == b[0] and a[0] in ('lab', 'free') and a[1] == b[1] and a[2] != b[2]:
                    return t
        return None

    def one(self, I, o, case, path, l):
        p = oracle.larry_parts(I, l)
        if p is None:
            return self.unknown('%s: result not understood' % case.entry)
        dims, content, labs = p
        if len(dims) != len(labs):
            return self.fail('%s: number of label lists' % case.entry,
                             '%r: %s has %d data axes but %d label lists; path: %s'
                             % (case, path, len(dims), len(labs), path_text(o)))
        x = self.crossed(I, content)
        if x is not None:
            return self.fail('%s: cells of another axis' % case.entry,
                             '%r: %s: cells along %s were put, by position, along %s; path: %s'
                             % (case, path, tstr(x[2])[:200], tstr(x[3])[:200], path_text(o)))
        for k in range(len(dims)):
            r = oracle.same_labels(I, dims[k], labs[k])
            if r is None:
                self.unknown('%s: label of axis not understood' % case.entry)
            elif r:
                self.ok(case.entry, '%r: %s axis %d: data and labels both %s' % (case, path, k, tstr(labs[k])[:200]))
            else:
                self.fail('%s: labels of axis' % case.entry,
                          '%r: %s axis %d: data is ordered by %s but labelled %s; path: %s'
                          % (case, path, k, tstr(dims[k])[:300], tstr(labs[k])[:300], path_text(o)))


CHECKS = [C03]
