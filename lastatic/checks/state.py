"""C19 (no hidden state) and C20 (randomness and order)."""
import ast

from ..core import Check, where_of, path_text
from ..values import *
from ..interp import local_names
from .. import catalog, oracle
from ..catalog import Case, func, sym, afunc, arg, newlabels
from ..drivers import tstr
from . import archive

F, U = 'la.flarry', 'la.util.misc'


def creation_cases():
    for name in ('rand', 'randn'):
        yield func(F, name, [], group='random')
        yield func(F, name, [sym('n', 'int')], group='random')
        yield func(F, name, [sym('n', 'int'), sym('m', 'int')], group='random')
        yield func(F, name, [], {'label': [newlabels('L0'), newlabels('L1')]}, group='random')
        yield func(F, name, [sym('n', 'int')], {name: afunc('randfunc')}, group='random', own=True)
        yield func(F, name, [], {name: afunc('randfunc'), 'label': [newlabels('L0')]}, group='random', own=True)
        yield func(F, name, [], {name: afunc('randfunc')}, group='random', own=True)
    yield func(U, 'randstring', [4], group='random')


def library(thorough):
    for case in catalog.everything(thorough):
        yield case
    for case in creation_cases():
        yield case


def archives(check):
    """the operations on archives, without failures"""
    c = archive.Touched(check.tier, check.seed)
    for case in c.cases():
        yield case


class Hidden(Check):
    may = True
    id = 'C19'
    floor = 3000
    rule = ('effect analysis: no write on any path of any public operation reaches an object that outlives the call and '
            'is not an argument (module globals, default arguments, class, function and module attributes), no setting '
            'of the interpreter or of NumPy is left changed, no object of the package is returned; plus the same '
            'question asked of the syntax of every function')
    LEAVES = ()

    def cases(self):
        for case in library(self.thorough):
            yield case
        for case in archives(self):
            yield case

    def run(self):
        Check.run(self)
        for mod in sorted(self.prog.modules.values(), key=lambda m: m.name):
            if mod.tree is not None:
                Sweep(self, mod).run()

    def visit(self, I, o, case):
        bad = False
        for e in o.events:
            if e['kind'] == 'mutate' and e['origin'][0] == 'global':
                bad = True
                self.fail('%s writes module state' % case.entry,
                          '%r: %s reaches an object that outlives the call; path: %s' % (case, e['what'], path_text(o)),
                          where_of(e))
            elif e['kind'] == 'globalwrite' and not e.get('imported'):
                bad = True
                self.fail('%s sets %s.%s' % (case.entry, e['module'], e['name']),
                          '%r: sets %s of %s; path: %s' % (case, e['name'], e['module'], path_text(o)), where_of(e))
            elif e['kind'] == 'procstate' and not e['name'].endswith('.seed'):
                bad = True
                self.fail('%s calls %s' % (case.entry, e['name']),
                          '%r: calls %s; path: %s' % (case, e['name'], path_text(o)), where_of(e))
        for n, t in sorted(I.errstate.items()):
            if t != ('sym', 'errstate.' + n, 'any') and not oracle.opaque(t):
                bad = True
                self.fail('%s leaves numpy error state changed' % case.entry,
                          '%r: %s with the NumPy setting for %s errors changed to %s; path: %s' % (
                              case, 'raises' if o.kind == 'raise' else 'returns', n, tstr(t), path_text(o)))
        if o.kind == 'return' and I.world is None:
            for path, obj in oracle.parts(o.value):
                if obj.origin is not None and obj.origin[0] == 'global' and \
                        isinstance(obj, (PyList, PyDict, PySet, Buf)) and not (
                            isinstance(obj, PyList) and obj.pytype == 'tuple'):
                    bad = True
                    self.fail('%s returns module state' % case.entry,
                              '%r: %s is an object kept by the package; path: %s' % (case, path, path_text(o)))
        if not bad:
            self.ok(case.entry, '%r: no lasting effect on path: %s' % (case, path_text(o, 4)))


MUTATORS = ('append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'add', 'discard', 'update',
            'setdefault', 'popitem', 'fill', 'resize', 'put', 'setfield', 'itemset', '__setitem__', 'appendleft')
BUILDERS = ('list', 'dict', 'set', 'bytearray', 'defaultdict', 'OrderedDict', 'deque', 'array', 'zeros', 'ones',
            'empty')


class Sweep(object):
    """syntactic: functions that change names of their module or their own
    default arguments"""
    def __init__(self, check, mod):
        self.check = check
        self.mod = mod
        self.file = check.prog.rel(mod.path)
        self.top = set(n for n in local_names(mod.tree))
        for st in ast.walk(mod.tree):
            if isinstance(st, (ast.Import, ast.ImportFrom)) and st in mod.tree.body:
                self.top.update((a.asname or a.name).split('.')[0] for a in st.names)

    def run(self):
        self.scope(self.mod.tree, '', set())

    def scope(self, node, name, outer):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                self.function(n, name + getattr(n, 'name', '<lambda>'), outer)
            elif isinstance(n, ast.ClassDef):
                self.scope(n, name + n.name + '.', outer)
            else:
                self.scope(n, name, outer)

    def function(self, fn, name, outer):
        local = set(outer)
        a = fn.args
        params = [x.arg for x in a.args + a.kwonlyargs + getattr(a, 'posonlyargs', [])]
        local.update(params)
        local.update(x.arg for x in (a.vararg, a.kwarg) if x is not None)
        if not isinstance(fn, ast.Lambda):
            local |= local_names(fn)
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and isinstance(fn, ast.Lambda):
                local.add(x.id)
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                local.update((al.asname or al.name).split('.')[0] for al in x.names)
            if isinstance(x, ast.comprehension):
                local.update(n.id for n in ast.walk(x.target) if isinstance(n, ast.Name))
        mutable = set()
        pos = getattr(a, 'posonlyargs', []) + a.args
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or \
                    isinstance(d, ast.Call) and (getattr(d.func, 'id', None) or getattr(d.func, 'attr', None)) in BUILDERS:
                mutable.add(p.arg)
        rebound = set(n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store))
        mutable -= rebound
        declared = set()
        for x in ast.walk(fn):
            if isinstance(x, ast.Global):
                declared.update(x.names)
        found = []

        def root(e):
            while isinstance(e, (ast.Attribute, ast.Subscript)):
                e = e.value
            return e.id if isinstance(e, ast.Name) else None

        def lasting(e):
            r = root(e)
            if r is None:
                return None
            if r in mutable:
                return 'default argument %s' % r
            if r in declared or r not in local and r in self.top:
                return 'module-level name %s' % r
            return None

        for x in self.own(fn):
            targets = []
            if isinstance(x, ast.Assign):
                targets = x.targets
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                targets = [x.target]
            elif isinstance(x, ast.Delete):
                targets = x.targets
            elif isinstance(x, (ast.For,)):
                targets = [x.target]
            flat = []
            for t in targets:
                flat.extend(n for n in ast.walk(t) if isinstance(n, (ast.Name, ast.Attribute, ast.Subscript))
                            and isinstance(n.ctx, (ast.Store, ast.Del)))
            for t in flat:
                if isinstance(t, ast.Name):
                    if t.id in declared:
                        found.append((x, 'sets module-level name %s' % t.id))
                    elif isinstance(x, ast.AugAssign) and t.id in mutable:
                        found.append((x, 'changes default argument %s' % t.id))
                elif lasting(t):
                    found.append((x, 'stores into %s' % lasting(t)))
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id in [
                    p.arg for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults)
                    if isinstance(d, (ast.List, ast.Dict, ast.Set))]:
                found.append((x, 'changes default argument %s in place' % x.target.id))
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                v = x.func.value
                r = root(v)
                m = self.mod.env.get(r) if r else None
                # functions of imported modules (np.add ...) are no mutators
                if r in mutable and isinstance(v, ast.Name):
                    found.append((x, 'changes default argument %s' % r))
                elif lasting(v) and isinstance(v, ast.Name) and isinstance(m, (PyList, PyDict, PySet, Arr)):
                    found.append((x, 'changes module-level name %s' % r))
                elif lasting(v) and ast.unparse(v) in ('sys.path', 'os.environ', 'warnings.filters', 'sys.modules'):
                    found.append((x, 'changes %s' % ast.unparse(v)))
        where = '%s:%s' % (self.file, name)
        for x, what in found:
            self.check.fail('%s %s' % (where, what), '%s %s' % (where, what), '%s:%s' % (self.file, x.lineno))
        if not found:
            self.check.ok('syntax of every function', where)
        for x in ast.iter_child_nodes(fn):
            self.inner(x, name, local - declared)

    def inner(self, x, name, local):
        if isinstance(x, (ast.FunctionDef, ast.Lambda)):
            self.function(x, name + '.' + getattr(x, 'name', '<lambda>'), local)
        else:
            for y in ast.iter_child_nodes(x):
                self.inner(y, name, local)

    def own(self, fn):
        """nodes of the function outside nested functions"""
        stack = list(ast.iter_child_nodes(fn))
        while stack:
            x = stack.pop()
            yield x
            if not isinstance(x, (ast.FunctionDef, ast.Lambda)):
                stack.extend(ast.iter_child_nodes(x))


# what may draw random numbers, and from which generator
RANDOM = {
    'larry.shuffle': ('np.random.shuffle',), 'larry.shufflelabel': ('np.random.shuffle',),
    'shuffle': ('np.random.shuffle',),
    'cross_validation': ('np.random.shuffle',), 'bootstrap': ('np.random.randint',),
    'rand': ('np.random.rand',), 'randn': ('np.random.randn',),
    'randstring': None,
}


class Random(Check):
    may = True
    id = 'C20'
    floor = 3000
    rule = ('effect analysis: random numbers are drawn on the paths of the documented random functions only, and not '
            'from the global generator when the caller passes one; nothing seeds the global generator, reads the clock '
            'or depends on the iteration order of a set')

    def cases(self):
        for case in library(self.thorough):
            yield case
        for case in archives(self):
            yield case

    def visit(self, I, o, case):
        own = case.meta.get('own') or case.meta.get('group') == 'resample' and len(case.meta.get('args', ())) == 3
        allowed = RANDOM.get(case.entry, ())
        bad = False
        for e in o.events:
            if e['kind'] == 'rng':
                if 'randstring' in e.get('stack', ()) and I.world is not None:
                    continue                  # names of temporary files
                if own:
                    bad = True
                    self.fail('%s ignores the given generator' % case.entry,
                              '%r: draws from %s though the caller passed a generator; path: %s' % (
                                  case, e['name'], path_text(o)), where_of(e))
                elif allowed == ():
                    bad = True
                    self.fail('%s is random' % case.entry, '%r: draws from %s; path: %s' % (
                        case, e['name'], path_text(o)), where_of(e))
                elif allowed is not None and not e['name'].startswith('np.random.'):
                    bad = True
                    self.fail('%s other generator' % case.entry,
                              '%r: draws from %s, which seeding numpy does not control; path: %s' % (
                                  case, e['name'], path_text(o)), where_of(e))
            elif e['kind'] == 'nondet':
                bad = True
                self.fail('%s calls %s' % (case.entry, e['name']), '%r: calls %s; path: %s' % (
                    case, e['name'], path_text(o)), where_of(e))
            elif e['kind'] == 'procstate' and e['name'] in ('np.random.seed', 'np.random.set_state', 'random.seed',
                                                            'random.setstate'):
                bad = True
                self.fail('%s seeds' % case.entry, '%r: calls %s; path: %s' % (case, e['name'], path_text(o)),
                          where_of(e))
        if o.kind == 'return' and case.meta.get('group') != 'resample':
            for path, obj in oracle.parts(o.value):
                t = None
                if isinstance(obj, PyList) and obj.items is None:
                    t = obj.term
                elif isinstance(obj, Buf):
                    t = obj.content
                if t is None:
                    continue
                if set_order(I.facts.norm(t)):
                    bad = True
                    self.fail('%s depends on set order' % case.entry,
                              '%r: %s is %s, in the iteration order of a set; path: %s' % (
                                  case, path, tstr(t)[:200], path_text(o)))
        if not bad:
            self.ok(case.entry, '%r: path: %s' % (case, path_text(o, 4)))


def set_order(t):
    """does the value depend on the order in which a set is iterated"""
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == 'slist':
        return True
    if t[0] in ('srt', 'set', 'len', 'argsort', 'union', 'inter', 'diff'):
        return False
    return any(set_order(x) for x in t)


CHECKS = [Hidden, Random]
