"""C01 (inputs untouched) and C02 (results share no memory with inputs)."""
from ..core import Check, where_of, path_text
from ..values import *
from .. import catalog, oracle
from .. import models as M

# documented in-place operations: what of the receiver they may write
INPLACE = {
    'larry.fill': ('x',),
    'larry.set': ('x',),
    'larry.__setitem__': ('x',),
    'lix.__setitem__': ('x',),
    'larry.shuffle': ('x',),
    'larry.shufflelabel': ('label',),
    'larry.flipaxis': ('x', 'label', 'larry'),
    'larry.maplabel': ('label', 'larry'),
    'shuffle': ('array',),
}

# documented views: parts of the result that may be the input's own memory
VIEWS = {
    'larry.getx': ('x',),
    'larry.A': ('x',),
    'larry.getlabel': ('label',),
    'larry.squeeze': ('x', 'label'),
    'larry.pull': ('x',),
    'larry.__getitem__': ('x', 'label'),
    'lix.__getitem__': ('x', 'label', 'larry'),
    # built directly from what the caller hands over
    'larry': ('array', 'list'),
    'lrange': ('list',),
    'empty': ('list',),
    'ones': ('list',),
    'zeros': ('list',),
}


def part_of(origin):
    p = origin[2]
    return 'label' if p.startswith('label') else p


class C01(Check):
    may = True
    id = 'C01'
    rule = ('effect analysis: on every path of every public operation, no write reaches memory owned by an '
            'argument (data buffer, label list, outer label list or attribute), except the parts of the receiver '
            'that a documented in-place operation may change')
    floor = 1500

    def cases(self):
        return catalog.everything(self.thorough)

    def visit(self, I, o, case):
        inplace = case.meta.get('group') in ('inplace', 'setitem', 'setitem_larry', 'lix_set', 'lix_set_larry')
        allowed = INPLACE.get(case.entry, ()) if inplace else ()
        bad = False
        for e in o.events:
            if e['kind'] != 'mutate':
                continue
            org = e['origin']
            if org[0] != 'in':
                continue
            if org[1] == 'A' and part_of(org) in allowed:
                continue
            bad = True
            self.fail('%s writes %s of argument %s' % (case.entry, part_of(org), org[1]),
                      '%r: %s reaches %s of argument %s; path: %s'
                      % (case, e['what'], org[2], org[1], path_text(o)), where_of(e))
        if not bad:
            self.ok(case.entry, '%r: no write to any argument on path: %s' % (case, path_text(o, 4)))


class C02(Check):
    may = True
    id = 'C02'
    rule = ('alias analysis: on every returning path, no data buffer or label list reachable from the result is the '
            'memory of an argument or of another part of the result, except the parts of documented views; the view '
            'flags returned by the low-level alignment must be true whenever the array is a view')
    floor = 1200

    def cases(self):
        for case in catalog.everything(self.thorough):
            if case.meta.get('group') not in ('inplace', 'setitem', 'setitem_larry', 'lix_set', 'lix_set_larry'):
                yield case

    def visit(self, I, o, case):
        g = case.meta.get('group')
        views = VIEWS.get(case.entry, ()) if g in ('view', 'getitem', 'lix_get', 'pull', 'constructor',
                                                   'constructor_nolabel', 'create') else ()
        if o.kind != 'return':
            return
        if g == 'align_raw':
            return self.align_raw(I, o, case)
        bad = False
        seen = {}
        for path, obj in oracle.parts(o.value):
            org = obj.origin
            if id(obj) in seen and not (isinstance(obj, PyList) and obj.pytype == 'tuple'):
                if not isinstance(obj, Inst):
                    bad = True
                    self.fail('%s shares memory inside its result' % case.entry,
                              '%r: %s and %s are the same object; path: %s'
                              % (case, seen[id(obj)], path, path_text(o)))
            seen[id(obj)] = path
            if org is None or org[0] == 'global' and not isinstance(obj, (PyList, PyDict, PySet, Buf)):
                continue
            if isinstance(obj, PyList) and obj.pytype == 'tuple':
                continue
            if org[0] == 'in' and part_of(org) in views:
                continue
            bad = True
            who = 'argument %s' % org[1] if org[0] == 'in' else org[1]
            part = part_of(org) if org[0] == 'in' else ''
            self.fail('%s returns %s of %s' % (case.entry, part, who),
                      '%r: %s of the result is %s of %s itself, not a copy; path: %s'
                      % (case, path, org[-1], who, path_text(o)))
        if not bad:
            self.ok(case.entry, '%r: %d parts, all fresh; path: %s' % (case, len(seen), path_text(o, 4)))

    def align_raw(self, I, o, case):
        v = o.value
        _, items = I.seq_of(v) if isinstance(v, (TupleV, PyList)) else (None, None)
        if items is None or len(items) != 5:
            return self.unknown('align_raw result shape')
        for x, flag, n in ((items[0], items[3], '1'), (items[1], items[4], '2')):
            if not isinstance(x, Arr) or not isinstance(flag, Const):
                self.unknown('align_raw flag')
                continue
            org = M.root(x.buf).origin
            if org is not None and org[0] == 'in' and not flag.v:
                self.fail('align_raw says x%s is a copy when it is a view' % n,
                          '%r: path: %s' % (case, path_text(o)))
            else:
                self.ok('align_raw', '%r: x%s flag %r, origin %r' % (case, n, flag.v, org))
        for path, obj in oracle.parts(items[2], 'label'):
            if obj.origin is not None:
                self.fail('align_raw returns label list of %s' % (obj.origin[1],),
                          '%r: %s is the argument\'s own list; path: %s' % (case, path, path_text(o)))


CHECKS = [C01, C02]
