"""C31 (values are never truncated to the dtype of an operand)."""
from ..core import Check, path_text, where_of
from ..values import *
from .. import catalog, oracle
from .. import models as M

INPLACE = ('inplace', 'setitem', 'setitem_larry', 'lix_set', 'lix_set_larry')

# real-valued whatever the dtype of the operand
REAL = {'log', 'exp', 'sqrt', 'mean', 'median', 'std', 'var', 'geometric_mean', 'demean', 'demedian', 'zscore', 'ranking',
        'lastrank', 'quantile', 'move_mean', 'move_std', 'move_median', 'move_ranking',
        '__truediv__', '__rtruediv__', 'group_mean', 'group_median', 'group_ranking'}
# select or rearrange: the dtype stays
KEEP = {'take', 'lag', 'sortaxis', 'flipaxis', 'maplabel', 'T', 'swapaxes',
        'insertaxis', 'squeeze', 'copy', 'copyx', 'getx', 'flatten'}

KINDS = [{'*': ['int']}, {'A': ['int'], '*': ['inexact']}, {'A': ['inexact'], '*': ['int']}, {'*': ['bool']}]


class C31(Check):
    id = 'C31'
    rule = ('dtype-kind dataflow: on contexts with integer and boolean operands no floating point value is stored in '
            'integer or boolean memory and none is cast to it (unless the caller named the dtype); real-valued operations '
            'have floating point results; selections keep the dtype')
    floor = 2000

    def cases(self):
        for case in catalog.everything(self.thorough):
            if case.meta.get('kind') is not None or case.meta.get('group') in INPLACE:
                continue
            if case.meta.get('nd') == 3 and not self.thorough:
                continue
            seen = []
            two = case.meta.get('group') not in ('elementwise', 'reduce', 'scan', 'move', 'index')
            for k in KINDS:
                if len(k) == 2 and not two:
                    continue
                yield catalog.typed(case, k)

    def visit(self, I, o, case):
        if o.kind != 'return' or case.entry in ('larry.astype', 'larry'):
            return
        bad = False
        for e in o.events:
            if e['kind'] == 'castloss':
                bad = True
                self.fail('%s: %s loses the fraction' % (case.entry, e['what']),
                          '%r: %s stores floating point values in %s memory; path: %s'
                          % (case, e['what'], '/'.join(sorted(I.facts.kind(e['dkind']) if not isinstance(e['dkind'], frozenset) else e['dkind'])), path_text(o)), where_of(e))
        if not bad:
            self.ok(case.entry, '%r: nothing truncated' % case)
        n = case.meta.get('name')
        v = o.value
        a = v if isinstance(v, Arr) else v.attrs.get('x') if oracle.is_larry(v) else None
        if not isinstance(a, Arr):
            return
        have = I.kindof(a)
        want = None
        if n in REAL:
            want = frozenset(['inexact'])
        elif n in KEEP:
            want = case.meta['kinds'].get('A', case.meta['kinds'].get('*'))
        if want is None:
            return
        if have <= want:
            self.ok(n + ' dtype', '%r: result is %s' % (case, '/'.join(sorted(have))))
        elif have & want:
            self.unknown('%s: dtype not known' % n)
        else:
            self.fail('%s: dtype of the result' % n, '%r: the result is %s, should be %s; path: %s'
                      % (case, '/'.join(sorted(have)), '/'.join(sorted(want)), path_text(o)))


CHECKS = [C31]
