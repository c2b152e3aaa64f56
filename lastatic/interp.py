"""Path-sensitive abstract interpreter for the subset of Python `la` is
written in.  No code of the package is executed: statements and expressions of
its syntax trees are evaluated over the abstract values of values.py."""
import ast
import builtins as _b
import os
from . import terms as T
from .terms import K, TRUE, FALSE, NONE
from .values import *
from .facts import Facts, Layer, ALLKINDS


class PathEnd(Exception):
    """this path is infeasible or beyond the analysis bounds"""
    def __init__(self, why, infeasible=False):
        Exception.__init__(self, why)
        self.why = why
        self.infeasible = infeasible


class AbsRaise(Exception):
    def __init__(self, exc, site=None):
        Exception.__init__(self, exc.name)
        self.exc = exc
        self.site = site


class ReturnEx(Exception):
    def __init__(self, val):
        self.val = val


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Frame(Heap):
    fields = ('env',)

    def __init__(self, mod, func, cls, parent=None):
        self.env = {}
        self.mod = mod
        self.func = func
        self.cls = cls
        self.parent = parent
        self.globals = set()
        self.line = 0


class Module(object):
    def __init__(self, name, path, tree, ispkg):
        self.name = name
        self.path = path
        self.tree = tree
        self.ispkg = ispkg
        self.env = {}
        self.state = None       # None, 'running', 'done'


class Program(object):
    """all non-test modules of the package"""

    def __init__(self, root):
        self.root = root
        self.modules = {}
        self.errors = []
        self.overrides = {}
        pkg = os.path.join(root, 'la')
        for d, dirs, files in os.walk(pkg):
            dirs[:] = sorted(x for x in dirs if x not in ('tests', 'src', '__pycache__'))
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, root)[:-3].split(os.sep)
                ispkg = rel[-1] == '__init__'
                if ispkg:
                    rel.pop()
                name = '.'.join(rel)
                with open(path, encoding='utf-8', errors='replace') as fid:
                    src = fid.read()
                tree = parse(src, path, self.errors)
                if tree is not None:
                    self.modules[name] = Module(name, path, tree, ispkg)

    def rel(self, path):
        return os.path.relpath(path, self.root)

    def add_pyx(self, name, path):
        """the Cython module at path, as Python (declarations dropped)"""
        from .pyx import to_python
        path = os.path.join(self.root, path)
        try:
            with open(path, encoding='utf-8', errors='replace') as fid:
                src = fid.read()
        except OSError as e:
            self.errors.append('%s: %s' % (path, e))
            return None
        tree = parse(to_python(src), path, self.errors)
        if tree is not None:
            self.modules[name] = Module(name, path, tree, False)
        return tree


def parse(src, path, errors):
    try:
        return ast.parse(src, path)
    except SyntaxError as e:
        from .py2 import parse_py2
        t = parse_py2(src, path)
        if t is None:
            errors.append('%s: cannot be parsed: %s' % (path, e))
        return t


class LoopCtx(object):
    def __init__(self, ids, script):
        self.ids = ids
        self.script = script
        self.taken = []         # (term, bool)
        self.pending = []
        self.layer = None


BOOLKIND = frozenset(['bool'])


class Interp(object):

    MAXSTEPS = 200000
    MAXDEPTH = 40
    strict_keys = False         # a lookup in an abstract dict may raise

    def __init__(self, prog):
        self.prog = prog
        self.base_heap = []
        self.heap = []
        self.events = []
        self.loops = []
        self.frames = []
        self.facts = Facts()
        self.script = []
        self.taken = []
        self.pending = []
        self.steps = 0
        self.gwrites = {}
        self.unresolved = {}
        self.handlers = []
        self.modinit = False
        from . import models, h5model
        self.models = models
        self.h5 = h5model
        self.world = None
        self.catching = 0
        self.errstate = {}
        self.load_all()

    # ------------------------------------------------------------ modules
    def load_all(self):
        self.modinit = True
        T.UNIQ = self.facts.uniq
        for name in sorted(self.prog.modules):
            self.load(name)
        self.base_heap = list(self.heap)
        for o in self.base_heap:
            if not isinstance(o, Frame):
                o.origin = ('global', 'module state')
        self.base_state = [(o, o.state()) for o in self.base_heap]
        self.modinit = False
        self.modevents = list(self.events)

    def load(self, name):
        m = self.prog.modules.get(name)
        if m is None:
            return None
        if m.state is None:
            m.state = 'running'
            fr = Frame(m, '<module>', None)
            fr.env = m.env
            self.frames.append(fr)
            for st in m.tree.body:
                try:
                    self.exec_stmt(fr, st)
                except (AbsRaise, PathEnd, ReturnEx):
                    pass
            self.frames.pop()
            m.state = 'done'
        return m

    # ------------------------------------------------------------ path driving
    def reset(self, script):
        T._counter[0] = 0
        self.facts = Facts()
        T.UNIQ = self.facts.uniq
        self.script = script
        self.taken = []
        self.boolvals = set()
        self.pending = []
        self.events = []
        self.loops = []
        self.frames = []
        self.steps = 0
        self.gwrites = {}
        self.handlers = []
        self.world = None
        self.csvrows = None
        self.textfiles = []
        self.errstate = dict((n, ('sym', 'errstate.' + n, 'any')) for n in ('divide', 'over', 'under', 'invalid'))
        self.catching = 0
        self.heap = list(self.base_heap)
        for o, s in self.base_state:
            o.setstate(s)
        self.inputs = {}

    def event(self, kind, **kw):
        fr = self.frames[-1] if self.frames else None
        e = dict(kind=kind, **kw)
        if fr is not None:
            e['file'] = self.prog.rel(fr.mod.path)
            e['line'] = fr.line
            e['func'] = (fr.cls + '.' if fr.cls else '') + str(fr.func)
            e['stack'] = [((f.cls + '.' if f.cls else '') + str(f.func)) for f in self.frames]
        self.events.append(e)
        return e

    def site(self):
        if not self.frames:
            return ('?', 0, '?')
        fr = self.frames[-1]
        return (self.prog.rel(fr.mod.path), fr.line,
                (fr.cls + '.' if fr.cls else '') + str(fr.func))

    def note(self, why):
        k = '%s:%s %s: %s' % (self.site()[0], self.site()[1], self.site()[2], why)
        self.unresolved[k] = self.unresolved.get(k, 0) + 1

    def unk(self, why):
        self.note(why)
        return Unk(why)

    def new(self, obj, origin=None):
        obj.origin = origin
        self.heap.append(obj)
        return obj

    # ------------------------------------------------------------ decisions
    def decide(self, term):
        """truth of a boolean term on this path (forks when unknown)"""
        term = self.facts.norm(term)
        if term[0] == 'not':
            return not self.decide(term[1])
        q = self.facts.query(term)
        if q is not None:
            return q
        js = T.free_j(term)
        ctx = None
        for lc in reversed(self.loops):
            if lc.ids & js:
                ctx = lc
                break
        if ctx is None:
            script, taken, pending, layer = self.script, self.taken, self.pending, 0
        else:
            script, taken, pending, layer = ctx.script, ctx.taken, ctx.pending, ctx.layer
        n = len(taken)
        if n < len(script):
            val = script[n]
        else:
            val = True
            pending.append([v for _, v in taken] + [False])
        taken.append((term, val))
        if n > 400:
            raise PathEnd('too many decisions')
        self.facts.assume(term, val, layer)
        return val

    def raise_(self, name, *args):
        raise AbsRaise(ExcV(name, args), self.site())

    # ------------------------------------------------------------ truth
    def truth_term(self, v):
        """boolean term of a value, or None if truth must be computed"""
        if isinstance(v, Const):
            try:
                return K(bool(v.v)) if v.v is not NotImplemented else TRUE
            except Exception:
                return TRUE
        if isinstance(v, Sym):
            if v.typ == 'bool':
                return v.term
            if v.typ in ('int', 'float', 'num'):
                return T.neg(T.eq(v.term, K(0)))
            if v.term[0] == 'strcat' and any(T.isk(x) and x[2] for x in v.term[1]):
                return TRUE
            if v.typ == 'str':
                return T.neg(T.eq(K(''), v.term))
            return ('truthy', v.term)
        if isinstance(v, TupleV):
            return K(len(v.items) > 0)
        if isinstance(v, PyList):
            if v.items is not None:
                return K(len(v.items) > 0)
            return T.neg(T.eq(T.length(v.term), K(0)))
        if isinstance(v, PySet):
            return T.neg(T.eq(T.length(v.term), K(0)))
        if isinstance(v, PyDict):
            if v.entries is not None:
                return K(len(v.entries) > 0)
            return ('truthy', v.term)
        if isinstance(v, Arr):
            if len(v.dims) == 0:
                return ('truthc', self.content(v))
            return ('truthc', self.content(v), tuple(self.facts.norm(d) for d in v.dims))
        if isinstance(v, Unk):
            if self.loops and self.loops[-1].ids:
                return ('unk', v.uid, ('j', min(self.loops[-1].ids)))       # another one in every iteration
            return ('unk', v.uid)
        if isinstance(v, Inst):
            if v.cls.lookup('__len__') is not None or v.cls.lookup('__nonzero__') is not None:
                return ('unk', id(v) % 1000003)
            return TRUE
        return TRUE

    def truth(self, v):
        return self.decide(self.truth_term(v))

    # ------------------------------------------------------------ freeze / thaw
    def freeze(self, v):
        if isinstance(v, Const):
            try:
                hash(v.v)
                return K(v.v)
            except TypeError:
                return ('opq', repr(v.v))
        if isinstance(v, Sym):
            return v.term
        if isinstance(v, TupleV):
            return ('tup',) + tuple(self.freeze(x) for x in v.items)
        if isinstance(v, PyList):
            if v.items is not None:
                return ('lst',) + tuple(self.freeze(x) for x in v.items)
            return v.term
        if isinstance(v, PySet):
            return ('oset', v.term)
        if isinstance(v, SliceV):
            return ('slice', self.freeze(v.a), self.freeze(v.b), self.freeze(v.c))
        if isinstance(v, Nat):
            return ('nat', v.name)
        if isinstance(v, (FuncV, ClassV)):
            return ('code', v.mod.name if v.mod else '', getattr(v, 'qual', getattr(v, 'name', '')))
        if isinstance(v, UserFunc):
            return ('ufunc', v.name)
        if isinstance(v, DtypeV):
            return ('dtype', v.kind, v.isclass)
        if isinstance(v, Arr):
            s = self.seqterm(v)
            if s is not None:
                return ('arr', s)
            return ('arrc', self.content(v), v.dims)
        key = ('ref', id(v))
        self.refs = getattr(self, 'refs', {})
        self.refs[key] = v
        return key

    def thaw(self, t):
        if T.isk(t):
            return Const(T.kval(t))
        h = t[0]
        if h == 'strcat':
            return Sym(t, 'str')
        if h == 'h5ref':
            return self.h5.thaw(self, t)
        if h == 'lst':
            return self.new(PyList([self.thaw(x) for x in t[1:]]))
        if h == 'tup':
            return TupleV([self.thaw(x) for x in t[1:]])
        if h in ('lab', 'seq', 'cat', 'slc', 'comp', 'srt', 'slist', 'firsts', 'perm', 'vals', 'sublist'):
            return self.new(PyList(None, t))
        if h in ('len', 'pos', 'j', 'poly', 'size'):
            return Sym(t, 'int')
        if h == 'ref':
            return self.refs.get(t) or Unk('ref')
        if h == 'slice':
            return SliceV(self.thaw(t[1]), self.thaw(t[2]), self.thaw(t[3]))
        if h == 'nat':
            return Nat(t[1])
        if h == 'sym':
            return Sym(t, t[2])
        if h in ('eq', 'le', 'lt', 'in', 'not', 'and', 'or'):
            return Sym(t, 'bool')
        if h == 'oset':
            return self.new(PySet(t[1]))
        return Sym(t, self.scalar_type(t))

    def scalar_type(self, t):
        if t[0] == 'at':
            S = t[1]
            b = self.seqbase(S)
            if b[0] == 'lab':
                return 'label'
            if b[0] in ('h5keys', 'h5items'):
                return 'str'
            if b[0] == 'seq':
                return b[2] if len(b) > 2 else 'label'
            if b[0] == 'comp':
                return self.scalar_type(b[2]) if b[2][0] in ('at', 'ite', 'j', 'pos', 'poly') else \
                    ('int' if b[2][0] in ('len',) else 'any')
            if b[0] == 'vals':
                return 'bool' if b[1] in self.boolvals else 'any'
            return 'label'
        if t[0] in ('j', 'pos', 'len', 'poly', 'size'):
            return 'int'
        if t[0] == 'ite':
            return self.scalar_type(t[2])
        if t[0] == 'sym':
            return t[2]
        if t[0] == 'k':
            return t[1]
        if t[0] in ('eq', 'le', 'lt', 'in', 'not', 'and', 'or'):
            return 'bool'
        if t[0] == 'app':
            return {'str': 'str', 'joined': 'str', 'strcat': 'str'}.get(t[1], 'any')
        return 'any'

    def seqbase(self, S):
        while S[0] in ('slc', 'perm'):
            S = S[1]
        if S[0] in ('srt', 'slist', 'firsts'):
            s = S[1] if S[0] != 'firsts' else T.mkset(S[1])
            while s[0] in ('union', 'inter') and s[1]:
                s = s[1][0]
            if s[0] == 'diff':
                s = s[1]
            if s[0] == 'set':
                return self.seqbase(s[1])
            return s
        return S

    # ------------------------------------------------------------ arrays
    def content(self, arr):
        return arr.buf.content

    def kindof(self, arr):
        return self.facts.kind(arr.buf.kind)

    def mkarr(self, dims, content, kind, origin=None):
        b = self.new(Buf(content, kind, tuple(dims)), origin)
        return Arr(b, dims)

    def newkind(self):
        return ('kv', T.fresh())

    def seqterm(self, arr):
        """sequence term of a 1d array's values (ignoring length-one axes)"""
        nd = [d for d in arr.dims if d != ONE]
        c = self.content(arr)
        if len(nd) > 1:
            return None
        if self.kindof(arr) == BOOLKIND:
            self.boolvals.add(c)
        if len(nd) == 0:
            return ('vals', c, arr.dims[0]) if arr.dims and c[0] != 'sv' else None
        if c[0] == 'sv':
            return c[1]
        if c[0] == 'kc':
            j = T.fresh_j()
            return T.comp(((j, T.length(nd[0])),), c[1], TRUE)
        return ('vals', c, nd[0])

    def seqarr(self, S, kind=None, dim=None):
        if S[0] == 'vals' and len(S) >= 3:
            return self.mkarr((S[2],), S[1], kind if kind is not None else self.newkind())
        d = dim if dim is not None else ('pos', T.length(S))
        return self.mkarr((d,), ('sv', S), kind if kind is not None else self.newkind())

    def slc(self, base, a, b, c):
        S = T.slc(base, a, b, c)
        return self.expand(S) if S[0] == 'slc' else S

    def expand(self, S):
        """a slice whose bounds are known to be in range, as a comprehension"""
        if S[0] != 'slc' or not (T.isk(S[4]) and T.kval(S[4]) in (None, 1)):
            return S
        base, a, b = S[1], S[2], S[3]
        n = T.length(base)
        lo = K(0) if a == T.NONE else a
        hi = n if b == T.NONE else b
        q = self.facts.query
        if q(T.le(K(0), lo)) and q(T.le(lo, hi)) and q(T.le(hi, n)):
            j = T.fresh_j()
            return self.facts.norm(T.comp(((j, T.psub(hi, lo)),), T.at(base, T.padd(('j', j), lo)), TRUE))
        return S

    # ------------------------------------------------------------ mutation
    def mutate(self, obj, what):
        if self.modinit:
            return
        if obj.origin is not None:
            self.event('mutate', origin=obj.origin, what=what, loops=len(self.loops))

    # ------------------------------------------------------------ sequences
    def seq_of(self, v):
        """(term, elements) of any iterable value: elements is a python list of
        values when the length is known, else None"""
        if isinstance(v, TupleV):
            return None, list(v.items)
        if isinstance(v, GenV):
            v = self.gen_list(v)
        if isinstance(v, self.h5.H5V):
            v = v.iterate(self)
        if isinstance(v, PyList):
            if v.items is not None:
                return None, list(v.items)
            t = self.facts.norm(v.term)
            if t[0] == 'lst':
                return None, [self.thaw(x) for x in t[1:]]
            return t, None
        if isinstance(v, PySet):
            t = self.facts.norm(v.term)
            if t == ('union', ()):
                return None, []
            return ('slist', t), None
        if isinstance(v, PyDict):
            if v.entries is not None:
                return None, [k for _, k, _ in v.entries]
            if v.term and v.term[0] == 'dcomp':
                return self.distinct(T.comp(v.term[1], v.term[2], v.term[4])), None
            return ('opq', T.fresh()), None
        if isinstance(v, Const) and isinstance(v.v, str):
            return None, [Const(c) for c in v.v]
        if isinstance(v, Arr):
            if len(v.dims) == 1:
                s = self.seqterm(v)
                return s, None
            if len(v.dims) > 1:
                d = v.dims[0]
                n = self.facts.norm(T.length(d))
                if T.isint(n):
                    return None, [self.models.index(self, v, Const(i)) for i in range(n[2])]
            return None, None
        if isinstance(v, Inst) and isinstance(v.cls.lookup('__iter__'), FuncV):
            return self.seq_of(self.call(self.getattr(v, '__iter__'), [], {}))
        if isinstance(v, Inst) and '__iter__' not in v.cls.attrs and \
                v.cls.lookup('__getitem__') is not None and 'x' in v.attrs and \
                isinstance(v.attrs['x'], Arr) and len(v.attrs['x'].dims) == 1:
            # old iteration protocol over a 1d larry: its elements
            return self.seqterm(v.attrs['x']), None
        return None, None

    def seqterm_of(self, v):
        """term for any sequence value (exact or not)"""
        t, items = self.seq_of(v)
        if t is not None:
            return t
        if items is not None:
            return ('lst',) + tuple(self.freeze(x) for x in items)
        return None

    def mkseq(self, term, pytype='list'):
        term = self.facts.norm(term)
        if term[0] == 'lst':
            return self.new(PyList([self.thaw(x) for x in term[1:]]))
        return self.new(PyList(None, term, pytype))

    # ------------------------------------------------------------ generic loops
    def snapshot(self):
        return [(o, o.state()) for o in self.heap]

    def restore(self, snap):
        for o, s in snap:
            o.setstate(s)
        del self.heap[len(snap):]

    def _bodies(self, bases, p, body, snap):
        """the paths of the body from the state snap"""
        ids = frozenset(j for j, _ in bases)
        frames = list(self.frames)
        todo = [[]]
        results = []
        count = 0
        while todo:
            script = todo.pop()
            count += 1
            if count > 200:
                raise PathEnd('loop body has too many paths')
            self.restore(snap)
            ctx = LoopCtx(ids, script)
            self.loops.append(ctx)
            self.facts.layers.append(Layer())
            ctx.layer = len(self.facts.layers) - 1
            self.facts._bump()
            for j, n in bases:
                self.facts.assume(T.le(K(0), ('j', j)), True)
                self.facts.assume(T.lt(('j', j), n), True)
            if p != TRUE:
                self.facts.assume(p, True)
            kind, payload = 'normal', None
            nh = len(self.handlers)
            nopen = len(self.world.handles) if self.world is not None else 0
            try:
                payload = body()
            except ContinueEx:
                pass
            except BreakEx:
                kind = 'break'
            except ReturnEx as e:
                kind, payload = 'return', e.val
            except AbsRaise as e:
                kind, payload = 'raise', e
            except PathEnd as e:
                if not e.infeasible:
                    raise
                kind = 'dead'
            finally:
                self.loops.pop()
                self.frames[:] = frames
                del self.handlers[nh:]
                # nested loops always pop their own layers
                lay = self.facts.layers
                del lay[ctx.layer:]
                self.facts._bump()
            todo.extend(ctx.pending)
            if kind == 'dead' and self.world is not None:
                del self.world.handles[nopen:]
            if kind != 'dead':
                cond = T.conj([t if v else T.neg(t) for t, v in ctx.taken])
                results.append((cond, kind, payload, {id(o): (o, s) for o, s in self.snapshot()}))
        return results

    def _carried(self, bases, p, body, snap, results, writeonly):
        """The body was run as the first iteration.  Containers that it changes are filled anew with unknown elements and
        the body is run again: those that its conditions or results depend on are unknown at the start of an iteration."""
        if self.world is not None:
            return results, {}
        done = [r for r in results if r[1] in ('normal', 'break')]
        changed = [o for o, s0 in snap if isinstance(o, (PyList, PySet, PyDict)) and id(o) not in writeonly and
                   any(not self._same(r[3][id(o)][1], s0) for r in done)]
        if not changed:
            return results, {}
        nev = len(self.events)
        posts = dict((id(o), [r[3][id(o)][1] for r in done]) for o in changed)
        again, tokens = self._havocked(bases, p, body, snap, changed, posts)
        used = set()
        for cond, kind, payload, post in again:
            ts = [cond, self._deep(payload, tokens)]
            for o, st in post.values():
                own = tokens.get(id(o))
                t = self._deep(st, tokens)
                if own is not None:
                    t = self._beyond(o, st, own)
                ts.append(t)
            for t in ts:
                for x in T.walk(t):
                    if len(x) == 3 and x[0] == 'opq':
                        used.update(k for k, q in tokens.items() if q == x)
        unks = lambda rs: sum(1 for r in rs for x in T.walk(r[0]) if x and x[0] == 'unk')
        if not used and (len(again) != len(results) or unks(again) != unks(results)):
            used = set(tokens)
        self.restore(snap)
        if not used:
            del self.events[nev:]
            return results, {}
        if len(used) != len(changed):
            again, _ = self._havocked(bases, p, body, snap, [o for o in changed if id(o) in used], posts)
        return again, self._firsts(bases, p, again, snap, used, tokens)

    def _firsts(self, bases, p, results, snap, used, tokens):
        """{container: its term after the loop} for the containers that are unknown at the start of an iteration.  Known is
        `if x not in seen: seen.add(x)`: the distinct elements"""
        dep = dict((i, None) for i in used)
        old = dict((id(o), (o, s0)) for o, s0 in snap)
        try:
            g, = used
            gs = ('set', tokens[g])
            if any(r[1] not in ('normal', 'dead') for r in results):
                return dep
            has = lambda t: any(x == tokens[g] for x in T.walk(t))
            if isinstance(old[g][0], PySet):
                grown = lambda st: st[0] != gs
            else:
                grown = lambda st: st[1] != tokens[g] or st[0] is not None
            add, = [r for r in results if grown(r[3][g][1])]
            lits = []
            for l in self._lits(add[0]):
                if l[0] == 'not' and l[1][0] == 'or':
                    lits.extend(T.neg(x) for x in (l[1][1] if isinstance(l[1][1][0], tuple) else l[1][1:]))
                else:
                    lits.append(l)
            guard, = [l for l in lits if has(l)]
            if guard[0] != 'not' or guard[1][0] != 'in' or guard[1][2] != gs or has(guard[1][1]):
                return dep
            f = guard[1][1]
            for r in results:
                if r is not add and has(without(r[0], guard[1])):
                    return dep
            st = add[3][g][1]
            if isinstance(old[g][0], PySet):
                if st[0] != T.union(gs, T.mkset(('lst', f))):
                    return dep
            elif st[0] is not None or st[1] != T.cat(tokens[g], ('lst', f)):
                return dep
        except (ValueError, KeyError, IndexError):
            return dep

        def term(s0):
            # a list
            return s0[1] if s0[0] is None else ('lst',) + tuple(self.freeze(x) for x in s0[0])
        o, s0 = old[g]
        conds = [p] + [l for l in lits if l != guard]
        before = s0[0] if isinstance(o, PySet) else T.mkset(term(s0))
        if before not in (('set', ('lst',)), ('union', ())):
            conds.append(T.neg(('in', f, before)))
        new = T.comp(bases, f, T.conj(conds))
        if isinstance(o, PySet):
            dep[g] = T.union(s0[0], T.mkset(new))
        for o, s0 in snap:
            if isinstance(o, PyList) and any(not self._same(r[3][id(o)][1], s0) for r in results):
                b = term(s0) if id(o) != g else tokens[g]
                posts = [term(r[3][id(o)][1]) for r in results if r is not add]
                if all(t == b for t in posts) and term(add[3][id(o)][1]) in (T.cat(b, ('lst', f)), b + (f,)):
                    t = term(s0)
                    dep[id(o)] = ('firsts', new) if t == ('lst',) else T.cat(t, ('firsts', new))
                else:
                    dep[id(o)] = None
        return dep

    def _havocked(self, bases, p, body, snap, objs, posts):
        self.restore(snap)
        tokens = {}
        for o in objs:
            q = ('opq', T.fresh(), ('j', bases[0][0]))           # not the same in every iteration
            tokens[id(o)] = q
            if isinstance(o, PyList) and o.items is not None and \
                    all(st[0] is not None and len(st[0]) == len(o.items) for st in posts[id(o)]):
                # some of its items are replaced
                o.items = [x if all(st[0][k] is x for st in posts[id(o)]) else Sym(q, 'any') for k, x in enumerate(o.items)]
                continue
            o.setstate([None, q] if not isinstance(o, PySet) else [('set', q)])
        return self._bodies(bases, p, body, self.snapshot()), tokens

    def _beyond(self, o, st, own):
        """what an iteration adds to a container of unknown elements"""
        base = own if not isinstance(o, PySet) else ('set', own)
        if isinstance(o, PyList) and st[0] is not None:
            return tuple(self._deep(x) for x in st[0] if not (isinstance(x, Sym) and x.term == own))
        t = st[-1]
        if t == base:
            return ()
        if isinstance(t, tuple) and t and t[0] in ('cat', 'ups', 'union') and base in t:
            return tuple(x for x in t if x != base)
        if isinstance(t, tuple) and t and t[0] == 'union' and isinstance(t[1], tuple):
            return tuple(x for x in t[1] if x != base)
        return self._deep(st)

    def _deep(self, v, known=()):
        """the terms that a value consists of, except those of the containers known"""
        if isinstance(v, dict):
            return tuple(self._deep(x, known) for x in v.values())
        if isinstance(v, list) or isinstance(v, tuple) and any(isinstance(x, V) for x in v):
            return tuple(self._deep(x, known) for x in v)
        if id(v) in known:
            return ()
        if isinstance(v, TupleV) or isinstance(v, PyList) and v.items is not None:
            return self._deep(v.items, known)
        if isinstance(v, V):
            try:
                return self.freeze(v)
            except Exception:
                return ()
        return v if isinstance(v, tuple) else ()

    def distinct(self, t):
        """the keys of a dictionary, assigned in the order t"""
        t = self.facts.norm(t)
        if t[0] != 'comp' or self.facts.uniq(t):
            return t
        return ('slist', T.mkset(t))

    def run_generic(self, bases, p, body, writeonly=()):
        """Run body once for a generic position.  body() -> payload.
        Returns list of (cond, kind, payload, poststate)."""
        snap = self.snapshot()
        results = self._bodies(bases, p, body, snap)
        results, dep = self._carried(bases, p, body, snap, results, writeonly)
        self.restore(snap)
        # exits other than normal completion
        excluded = []
        merged = False
        for cond, kind, payload, post in results:
            if kind in ('raise', 'return', 'break'):
                c = T.conj([p, cond])
                nonempty = T.conj([T.lt(K(0), n) for _, n in bases])
                if c == TRUE:
                    ex = nonempty
                else:
                    ex = ('some', T.comp(bases, c, TRUE))
                    q = [self.facts.query(T.lt(K(0), n)) for _, n in bases]
                    if any(x is False for x in q):
                        ex = FALSE
                if kind == 'break' and not merged:
                    self._merge(bases, p, snap, self._simplify(results, excluded), dep)
                    merged = True
                if self.decide(ex):
                    if not merged:
                        self._merge(bases, p, snap, results, dep)
                    if self.world is not None:
                        for o, s in post.values():
                            if isinstance(o, self.h5.H5Handle):
                                o.setstate(s)
                    if kind == 'raise':
                        raise payload
                    if kind == 'return':
                        raise ReturnEx(payload)
                    break
                elif c == TRUE:
                    # no iteration at all
                    self.restore(snap)
                    return []
                else:
                    excluded.append(frozenset(self._lits(cond)))
        results = self._simplify(results, excluded)
        if not merged:
            self._merge(bases, p, snap, results, dep)
        return [r for r in results if r[1] == 'normal']

    @staticmethod
    def _lits(cond):
        return list(cond[1]) if cond[0] == 'and' else [cond]

    def _simplify(self, results, excluded):
        """drop from path conditions what follows from no iteration leaving
        the loop early"""
        if not excluded:
            return results
        out = []
        for cond, kind, payload, post in results:
            if kind == 'normal':
                lits = self._lits(cond)
                changed = True
                while changed and lits:
                    changed = False
                    for l in lits:
                        rest = [x for x in lits if x != l]
                        flipped = frozenset(rest + [T.neg(l)])
                        if any(e <= flipped and T.neg(l) in e for e in excluded):
                            lits = rest
                            changed = True
                            break
                cond = T.conj(lits)
            out.append((cond, kind, payload, post))
        return out

    def _merge(self, bases, p, snap, results, dep={}):
        done = [r for r in results if r[1] in ('normal', 'break')]
        js = frozenset(j for j, _ in bases)
        if not done:
            return
        for o, s0 in snap:
            posts = [r[3][id(o)][1] for r in done]
            if all(self._same(x, s0) for x in posts):
                continue
            conds = [T.conj([p, r[0]]) for r in done]
            if id(o) in dep:
                t = dep[id(o)]
                if t is None:
                    t = ('opq', T.fresh())
                    t = ('set', t) if isinstance(o, PySet) else t
                o.setstate([t] if isinstance(o, PySet) else [None, t])
            elif isinstance(o, PyList):
                self._merge_list(o, s0, posts, conds, bases, js)
            elif isinstance(o, PyDict):
                self._merge_dict(o, s0, posts, conds, bases)
            elif isinstance(o, PySet):
                self._merge_set(o, s0, posts, conds, bases)
            elif isinstance(o, self.h5.H5State):
                o.merge(self, s0, posts, conds, bases)
            elif isinstance(o, Buf):
                cs = []
                for x, c in zip(posts, conds):
                    if x[0] != s0[0]:
                        cs.append(T.ite(c, x[0], NONE) if c != TRUE else x[0])
                if cs:
                    o.content = ('loop', s0[0], T.comp(bases, ('cts',) + tuple(sorted(set(cs), key=repr)), TRUE))
                kinds = set(map(repr, [x[1] for x in posts]))
                if len(kinds) > 1:
                    o.kind = self.newkind()
                elif posts:
                    o.kind = posts[0][1]
            elif isinstance(o, (Frame, Inst)):
                d0 = s0[0]
                names = set()
                for x in posts:
                    names.update(x[0])
                out = dict(d0)
                for n in sorted(names):
                    vals = [x[0].get(n) for x in posts]
                    v0 = d0.get(n)
                    if all(v is v0 for v in vals):
                        continue
                    if all(v is not None for v in vals):
                        fz = [self._valkey(v) for v in vals]
                        if len(set(fz)) == 1 and not (T.free_j(fz[0]) & js) and \
                                (len(set(map(id, vals))) == 1 or isinstance(vals[0], (Const, Sym))):
                            out[n] = vals[0]
                            continue
                    out[n] = Unk('loop variable %s' % n)
                if isinstance(o, Frame):
                    o.env.clear()
                    o.env.update(out)
                else:
                    o.attrs = out

    def _valkey(self, v):
        if isinstance(v, (Const, Sym, TupleV, SliceV, Nat)):
            return self.freeze(v)
        if isinstance(v, Arr):
            return ('arrv', id(v.buf), v.dims)
        return ('ref', id(v))

    def _same(self, a, b):
        if a is b:
            return True
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if x is y:
                continue
            if isinstance(x, list) and isinstance(y, list):
                if len(x) != len(y) or any(p is not q for p, q in zip(x, y)):
                    return False
            elif isinstance(x, dict) and isinstance(y, dict):
                if set(x) != set(y) or any(x[k] is not y[k] for k in x):
                    return False
            elif x != y:
                return False
        return True

    def _merge_list(self, o, s0, posts, conds, bases, js):
        items0, term0 = s0
        base_term = term0 if items0 is None else ('lst',) + tuple(self.freeze(x) for x in items0)
        alts = []
        ups = []
        ok = True
        for st, c in zip(posts, conds):
            if self._same(st, s0):
                continue
            items, term = st
            if items0 is not None and items is not None:
                if len(items) > len(items0) and all(a is b for a, b in zip(items, items0)):
                    new = [self.freeze(x) for x in items[len(items0):]]
                    alts.append((c, new))
                elif len(items) == len(items0):
                    ok = False
                else:
                    ok = False
                continue
            if items is None:
                if term[0] == 'ups' and term[1] == base_term:
                    ups.append((c, term[2], term[3]))
                    continue
                if term[0] == 'cat' and term[1] == base_term and len(term) == 3:
                    if term[2][0] == 'lst':
                        alts.append((c, list(term[2][1:])))
                    elif base_term == ('lst',):
                        ok = False
                    else:
                        ok = False
                    continue
                if base_term == ('lst',):
                    # extended an empty list by one abstract sequence
                    alts.append((c, [('splice', term)]))
                    continue
                if term[0] == 'cat' and base_term[0] == 'cat' and \
                        term[1:len(base_term)] == base_term[1:]:
                    alts.append((c, [('splice', T.cat(*term[len(base_term):]))]))
                    continue
            ok = False
        if ok and ups and not alts:
            # o[j] = val for every j
            val = None
            i = ups[0][1]
            if len(bases) == 1 and all(u[1] == i for u in ups) and i == ('j', bases[0][0]) \
                    and self.facts.query(T.eq(T.length(base_term), bases[0][1])):
                f = T.at(base_term, i)
                for c, _, v in ups:
                    f = T.ite(c, v, f)
                o.items, o.term = None, T.comp(bases, f, TRUE)
                return
            ok = False
        if ok and alts and not ups:
            if all(len(n) == 1 for _, n in alts):
                byf = {}
                for c, (f,) in alts:
                    byf.setdefault(f, []).append(c)
                if len(byf) == 1:
                    (f, cs), = byf.items()
                    pp = T.disj(cs)
                else:
                    fs = list(byf.items())
                    f, cs = fs[0]
                    pp = T.disj([c for _, c2 in fs for c in c2])
                    for g, c2 in fs[1:]:
                        f = T.ite(T.disj(c2), g, f)
                if f[0] == 'splice':
                    inner = f[1]
                    if inner[0] == 'comp':
                        b2, f2, p2 = T.opencomp(inner)
                        new = T.comp(tuple(bases) + b2, f2, T.conj([pp, p2]))
                    elif inner[0] == 'lst':
                        o.items, o.term = None, ('opq', T.fresh())
                        return
                    else:
                        j = T.fresh_j()
                        new = T.comp(tuple(bases) + ((j, T.length(inner)),), T.at(inner, ('j', j)), pp)
                else:
                    new = T.comp(bases, f, pp)
                o.items, o.term = None, T.cat(base_term, new)
                if o.term[0] == 'lst':
                    o.items, o.term = [self.thaw(x) for x in o.term[1:]], None
                return
        o.items, o.term = None, ('opq', T.fresh())

    def _merge_dict(self, o, s0, posts, conds, bases):
        e0, t0 = s0
        alts = []
        ok = e0 is not None and len(e0) == 0 and t0 is None
        for st, c in zip(posts, conds):
            if self._same(st, s0):
                continue
            e, t = st
            if e is not None and len(e) == 1 and ok:
                alts.append((c, e[0]))
            else:
                ok = False
        if ok and len(alts) == 1:
            c, (kt, kv, v) = alts[0]
            o.entries, o.term = None, ('dcomp', tuple(bases), kt, self.freeze(v), c)
            return
        o.entries, o.term = None, ('opq', T.fresh())

    def _merge_set(self, o, s0, posts, conds, bases):
        t0 = s0[0]
        alts = []
        for st, c in zip(posts, conds):
            if self._same(st, s0):
                continue
            t = st[0]
            # union(t0, set(lst(x)))
            new = None
            parts = list(t[1]) if t[0] == 'union' else [t]
            old = list(t0[1]) if t0[0] == 'union' else [t0]
            rest = [x for x in parts if x not in old]
            if len(rest) == 1 and rest[0][0] == 'set' and rest[0][1][0] == 'lst' and \
                    len(rest[0][1]) == 2:
                alts.append((c, rest[0][1][1]))
            else:
                o.term = ('set', ('opq', T.fresh()))
                return
        fs = set(f for _, f in alts)
        if len(fs) == 1:
            o.term = T.union(t0, T.mkset(T.comp(bases, alts[0][1], T.disj([c for c, _ in alts]))))
        else:
            o.term = ('set', ('opq', T.fresh()))

    def each(self, v, body):
        """Iterate: body(element) for every element of iterable v.  Exact
        sequences are unrolled, abstract ones run generically."""
        term, items = self.seq_of(v)
        if items is not None:
            for x in items:
                try:
                    body(x)
                except ContinueEx:
                    pass
            return
        if term is None:
            # unknown iterable: one havoc iteration
            j = T.fresh_j()
            term = ('opq', T.fresh())
            self.note('iteration over unknown value')
            bases, f, p = ((j, T.length(term)),), None, TRUE
            elem = lambda: Unk('element')
        else:
            if term[0] == 'comp':
                bases, f, p = T.opencomp(term)
            else:
                j = T.fresh_j()
                bases, f, p = ((j, T.length(term)),), T.at(term, ('j', j)), TRUE
            elem = lambda: self.thaw(f)
        if any(self.facts.query(T.le(n, K(0))) for _, n in bases):
            return
        self.run_generic(bases, p, lambda: body(elem()))

    def collect(self, v, fn):
        """[fn(e) for e in v] with fn returning None to skip / value"""
        out = self.new(PyList([]))

        def body(e):
            r = fn(e)
            if r is not None:
                self.list_append(out, r)
        self.each(v, body)
        return out

    def list_append(self, lst, v):
        self.mutate(lst, 'append')
        if lst.items is not None:
            lst.items.append(v)
        else:
            lst.term = T.cat(lst.term, ('lst', self.freeze(v)))

    def list_extend(self, lst, v):
        self.mutate(lst, 'extend')
        t, items = self.seq_of(v)
        if items is not None:
            if lst.items is not None:
                lst.items.extend(items)
            else:
                lst.term = T.cat(lst.term, ('lst',) + tuple(self.freeze(x) for x in items))
        elif t is not None:
            base = lst.term if lst.items is None else ('lst',) + tuple(self.freeze(x) for x in lst.items)
            lst.items, lst.term = None, T.cat(base, t)
        else:
            lst.items, lst.term = None, ('opq', T.fresh())

    # ------------------------------------------------------------ statements
    def exec_block(self, fr, stmts):
        for st in stmts:
            self.exec_stmt(fr, st)

    def exec_stmt(self, fr, st):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise PathEnd('step bound')
        fr.line = getattr(st, 'lineno', fr.line)
        m = getattr(self, 'st_' + type(st).__name__, None)
        if m is None:
            self.note('statement %s' % type(st).__name__)
            return
        m(fr, st)

    def st_Expr(self, fr, st):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(fr, st.value)

    def st_Pass(self, fr, st):
        pass

    def st_Return(self, fr, st):
        raise ReturnEx(self.ev(fr, st.value) if st.value is not None else Const(None))

    def st_Break(self, fr, st):
        raise BreakEx()

    def st_Continue(self, fr, st):
        raise ContinueEx()

    def st_Global(self, fr, st):
        fr.globals.update(st.names)

    def st_Nonlocal(self, fr, st):
        pass

    def st_Assert(self, fr, st):
        if not self.truth(self.ev(fr, st.test)):
            self.raise_('AssertionError')

    def st_Delete(self, fr, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(fr, t.value)
                i = self.ev_index(fr, t.slice)
                self.delitem(o, i)
            elif isinstance(t, ast.Attribute):
                o = self.ev(fr, t.value)
                if isinstance(o, Inst):
                    self.mutate(o, 'del attribute ' + t.attr)
                    o.attrs.pop(t.attr, None)

    def delitem(self, o, i):
        if isinstance(o, self.h5.H5V):
            o.delitem(self, i)
            return
        if isinstance(o, PyList):
            self.mutate(o, 'del item')
            if o.items is not None and isinstance(i, Const) and isinstance(i.v, int):
                try:
                    del o.items[i.v]
                except IndexError:
                    self.raise_('IndexError')
                return
            if o.items is not None and isinstance(i, SliceV):
                s = self.exact_slice(i)
                if s is not None:
                    del o.items[s]
                    return
            o.items, o.term = None, ('opq', T.fresh())
        elif isinstance(o, PyDict):
            self.mutate(o, 'del key')
            k = self.freeze(i)
            if o.entries is not None:
                n = [e for e in o.entries if e[0] != k]
                if len(n) == len(o.entries):
                    self.raise_('KeyError')
                o.entries = n
        elif isinstance(o, Inst):
            m = o.cls.lookup('__delitem__')
            if m is not None:
                self.call(BoundV(m, o), [i], {})

    def exact_slice(self, s):
        out = []
        for x in (s.a, s.b, s.c):
            if isinstance(x, Const) and (x.v is None or isinstance(x.v, int)):
                out.append(x.v)
            else:
                return None
        return slice(*out)

    def st_Assign(self, fr, st):
        v = self.ev(fr, st.value)
        for t in st.targets:
            self.assign(fr, t, v)

    def st_AnnAssign(self, fr, st):
        if st.value is not None:
            self.assign(fr, st.target, self.ev(fr, st.value))

    def st_AugAssign(self, fr, st):
        t = st.target
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(fr, t.id)
            v = self.ev(fr, st.value)
            new = self.inplace(op, cur, v)
            self.assign(fr, t, new)
        elif isinstance(t, ast.Attribute):
            o = self.ev(fr, t.value)
            cur = self.getattr(o, t.attr)
            v = self.ev(fr, st.value)
            new = self.inplace(op, cur, v)
            if not (isinstance(new, Arr) and isinstance(cur, Arr) and new.buf is cur.buf
                    and new.dims == cur.dims) and new is not cur:
                self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.ev(fr, t.value)
            i = self.ev_index(fr, t.slice)
            cur = self.getitem(o, i)
            v = self.ev(fr, st.value)
            new = self.inplace(op, cur, v)
            self.setitem(o, i, new)

    def inplace(self, op, cur, v):
        if isinstance(cur, Arr):
            return self.models.inplace_op(self, op, cur, v)
        if isinstance(cur, PyList) and op == 'Add':
            self.list_extend(cur, v)
            return cur
        if isinstance(cur, PySet) and op in ('Sub', 'BitOr', 'BitAnd'):
            if not cur.frozen:
                self.mutate(cur, 'in-place set operation')
                r = self.binop(op, cur, v)
                cur.term = r.term if isinstance(r, PySet) else ('set', ('opq', T.fresh()))
                return cur
            return self.binop(op, cur, v)
        if isinstance(cur, Inst):
            n = {'Add': '__iadd__', 'Sub': '__isub__', 'Mult': '__imul__', 'Div': '__idiv__'}.get(op)
            m = n and cur.cls.lookup(n)
            if m:
                return self.call(BoundV(m, cur), [v], {})
        return self.binop(op, cur, v)

    def assign(self, fr, t, v):
        if isinstance(t, ast.Name):
            if t.id in fr.globals:
                self.event('globalwrite', name=t.id, module=fr.mod.name)
                self.gwrites[(fr.mod.name, t.id)] = v
            else:
                fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, t.elts)
            for e, x in zip(t.elts, vals):
                self.assign(fr, e, x)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(fr, t.value), t.attr, v, fr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(fr, t.value)
            i = self.ev_index(fr, t.slice)
            self.setitem(o, i, v)
        elif isinstance(t, ast.Starred):
            self.assign(fr, t.value, v)

    def unpack(self, v, elts):
        n = len(elts)
        t, items = self.seq_of(v)
        if items is not None:
            if len(items) == n:
                return items
            if any(isinstance(e, ast.Starred) for e in elts):
                return [Unk('starred unpack')] * n
            self.raise_('ValueError')
        if t is not None:
            return [self.thaw(T.at(t, K(i))) for i in range(n)]
        if isinstance(v, Arr) and len(v.dims) >= 1:
            return [self.models.index(self, v, Const(i)) for i in range(n)]
        return [Unk('unpack') for _ in range(n)]

    def st_If(self, fr, st):
        c = self.ev(fr, st.test)
        if self.truth(c):
            self.exec_block(fr, st.body)
        else:
            self.exec_block(fr, st.orelse)

    def st_For(self, fr, st):
        it = self.ev(fr, st.iter)
        term, items = self.seq_of(it)
        if items is not None:
            for x in items:
                self.assign(fr, st.target, x)
                try:
                    self.exec_block(fr, st.body)
                except ContinueEx:
                    continue
                except BreakEx:
                    return
            self.exec_block(fr, st.orelse)
            return
        # abstract: havoc loop carried variables, recognise counters
        stored = {}
        for n in ast.walk(ast.Module(body=st.body, type_ignores=[])):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                stored[n.id] = stored.get(n.id, 0) + 1
        counters = {}
        for s in st.body:
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and \
                    isinstance(s.op, (ast.Add, ast.Sub)) and stored.get(s.target.id) == 1 and \
                    isinstance(s.value, ast.Constant) and isinstance(s.value.value, int):
                k = s.value.value if isinstance(s.op, ast.Add) else -s.value.value
                counters[s.target.id] = k
        if term is None:
            bases, p = ((T.fresh_j(), ('len', ('opq', T.fresh()))),), TRUE
            f = None
            if not isinstance(it, Unk):
                self.note('for over %s' % type(it).__name__)
        elif term[0] == 'comp':
            bases, f, p = T.opencomp(term)
        else:
            j = T.fresh_j()
            bases, f, p = ((j, T.length(term)),), T.at(term, ('j', j)), TRUE
        if any(self.facts.query(T.le(n, K(0))) for _, n in bases):
            self.exec_block(fr, st.orelse)
            return
        tnames = set(n.id for n in ast.walk(st.target) if isinstance(n, ast.Name))
        pre = dict(fr.env)
        for n in stored:
            if n in fr.env and n not in tnames:
                old = fr.env[n]
                if n in counters and isinstance(old, (Const, Sym)) and len(bases) == 1 and p == TRUE:
                    t = T.padd(self.freeze(old), T.pmul(K(counters[n]), ('j', bases[0][0])))
                    fr.env[n] = self.thaw(t)
                else:
                    fr.env[n] = self.havoc(old, n)
        hav = dict(fr.env)

        def body():
            self.assign(fr, st.target, self.thaw(f) if f is not None else Unk('loop element'))
            self.exec_block(fr, st.body)
        self.run_generic(bases, p, body, self.write_only(fr, st.body))
        for n in counters:
            if n in pre and isinstance(pre[n], (Const, Sym)) and len(bases) == 1 and p == TRUE:
                t = T.padd(self.freeze(pre[n]), T.pmul(K(counters[n]), bases[0][1]))
                fr.env[n] = self.thaw(t)
        self.exec_block(fr, st.orelse)

    def write_only(self, fr, stmts):
        """containers that a loop only adds to"""
        reads, names, nodes = set(), set(), set()
        for n in ast.walk(ast.Module(body=stmts, type_ignores=[])):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and \
                    n.value.func.attr in ('append', 'extend', 'add', 'update', 'insert') and \
                    isinstance(n.value.func.value, ast.Name):
                nodes.add(id(n.value.func.value))
                names.add(n.value.func.value.id)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                nodes.add(id(n.value))
                names.add(n.value.id)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in nodes:
                reads.add(n.id)
            if isinstance(n, (ast.Yield, ast.Global)):
                return ()
        objs = {}
        for k, v in fr.env.items():
            objs.setdefault(id(v), []).append(k)
        return frozenset(i for i, ks in objs.items() if any(k in names for k in ks) and not any(k in reads for k in ks))

    def havoc(self, old, name):
        if isinstance(old, PyList):
            return self.new(PyList(None, ('opq', T.fresh())))
        if isinstance(old, Arr):
            return self.mkarr(old.dims, ('opqc', T.fresh()), self.newkind())
        if isinstance(old, PySet):
            return self.new(PySet(('set', ('opq', T.fresh()))))
        return Unk('loop carried %s' % name)

    def st_While(self, fr, st):
        n = 0
        while True:
            c = self.truth_term(self.ev(fr, st.test))
            q = self.facts.query(self.facts.norm(c))
            if q is None:
                q = self.decide(c)
                n += 40
            if not q:
                break
            n += 1
            if n > 80:
                raise PathEnd('while bound')
            before = len(self.taken)
            try:
                self.exec_block(fr, st.body)
            except ContinueEx:
                continue
            except BreakEx:
                return
            finally:
                if len(self.taken) > before:
                    n += 26
        self.exec_block(fr, st.orelse)

    def st_Raise(self, fr, st):
        if st.exc is None:
            cur = getattr(self, 'curexc', None)
            raise cur if cur is not None else AbsRaise(ExcV('Exception'), self.site())
        e = self.ev(fr, st.exc)
        if isinstance(e, Nat):
            e = ExcV(e.name.split('.')[-1])
        if isinstance(e, Inst):
            e = ExcV(e.cls.name)
        if not isinstance(e, ExcV):
            e = ExcV('Exception')
        raise AbsRaise(e, self.site())

    def exc_match(self, fr, exc, handler):
        if handler.type is None:
            return True
        ht = self.ev(fr, handler.type)
        alts = ht.items if isinstance(ht, TupleV) else [ht]
        for a in alts:
            name = a.name.split('.')[-1] if isinstance(a, (Nat, ClassV)) else None
            if name is None:
                continue
            if name == exc.name:
                return True
            c1, c2 = getattr(_b, exc.name, None), getattr(_b, name, None)
            if isinstance(c1, type) and isinstance(c2, type) and issubclass(c1, c2):
                return True
            if c1 is None and name in ('Exception', 'BaseException', 'StandardError'):
                return True
            if name == 'StandardError':
                return True
        return False

    def catches(self, name):
        """is an exception of this type caught by an active handler?"""
        for fr, hs in self.handlers:
            for h in hs:
                if self.exc_match(fr, ExcV(name), h):
                    return True
        return False

    def st_Try(self, fr, st):
        depth = len(self.frames)
        try:
            self.handlers.append((fr, st.handlers))
            nh = len(self.handlers)
            try:
                self.exec_block(fr, st.body)
            except AbsRaise as e:
                del self.handlers[nh - 1:]
                del self.frames[depth:]
                for h in st.handlers:
                    if self.exc_match(fr, e.exc, h):
                        if h.name:
                            fr.env[h.name] = e.exc
                        saved = getattr(self, 'curexc', None)
                        self.curexc = e
                        w = self.world
                        if w is not None:
                            w.quiet += 1
                        try:
                            self.exec_block(fr, h.body)
                        finally:
                            if w is not None:
                                w.quiet -= 1
                        self.curexc = saved
                        break
                else:
                    raise
            else:
                del self.handlers[nh - 1:]
                self.exec_block(fr, st.orelse)
        finally:
            del self.handlers[nh - 1:]
            import sys
            et = sys.exc_info()[0]
            if et is not PathEnd and st.finalbody:
                del self.frames[depth:]
                self.exec_block(fr, st.finalbody)

    def st_With(self, fr, st):
        self.with_(fr, st.items, st.body)

    def with_(self, fr, items, body):
        if not items:
            self.exec_block(fr, body)
            return
        item = items[0]
        c = self.ev(fr, item.context_expr)

        def inner(v):
            if item.optional_vars is not None:
                self.assign(fr, item.optional_vars, v)
            self.with_(fr, items[1:], body)

        if isinstance(c, CtxV):
            def cb(v):
                self.frames.append(fr)
                depth = len(self.frames)
                try:
                    inner(v)
                except (ReturnEx, BreakEx, ContinueEx) as e:
                    raise Escape(e)
                finally:
                    del self.frames[depth - 1:]
            try:
                self.run_gen(c.gen, cb)
            except Escape as e:
                raise e.exc
            return
        leave = None
        v = c
        if isinstance(c, Inst) and c.cls.lookup('__exit__') is not None:
            v = self.call(self.getattr(c, '__enter__'), [], {})

            def leave(exc):
                a = [Nat('builtins.' + exc.exc.name), exc.exc, Const(None)] if exc is not None else [Const(None)] * 3
                return self.call(self.getattr(c, '__exit__'), a, {})
        elif isinstance(c, self.models.textmodel.TextFile):
            def leave(exc):
                c.open = False
        elif isinstance(c, self.h5.H5Handle):
            def leave(exc):
                c.close(self)
        elif isinstance(c, TupleV) and c.tag == 'closing':
            v = c.items[0]

            def leave(exc):
                self.call(self.getattr(v, 'close'), [], {})
        elif isinstance(c, TupleV) and c.tag == 'errstate':
            old = dict(self.errstate)
            kw = dict((k.v, x) for _, k, x in c.items[0].entries)
            self.call(Nat('np.seterr'), [], kw)
            v = Const(None)

            def leave(exc):
                self.errstate = old
        elif isinstance(c, TupleV) and c.tag == 'catch_warnings':
            self.catching += 1
            v = Unk('recorded warnings')

            def leave(exc):
                self.catching -= 1
        if leave is None:
            inner(v)
            return
        depth = len(self.frames)
        try:
            inner(v)
        except AbsRaise as e:
            del self.frames[depth:]
            r = leave(e)
            if r is not None and not (isinstance(r, Const) and not r.v) and self.truth(r):
                return
            raise
        except (ReturnEx, BreakEx, ContinueEx):
            del self.frames[depth:]
            leave(None)
            raise
        leave(None)

    def st_FunctionDef(self, fr, st):
        defaults = [self.ev(fr, d) for d in st.args.defaults]
        kwd = {a.arg: self.ev(fr, d) for a, d in zip(st.args.kwonlyargs, st.args.kw_defaults)
               if d is not None}
        f = FuncV(st, fr.mod, fr.cls, fr if fr.func != '<module>' and not fr.env.get('__isclass__') else None,
                  st.name, defaults, kwd)
        v = f
        for d in reversed(st.decorator_list):
            if isinstance(d, ast.Name) and d.id == 'property':
                v = PropV(v)
            elif isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod'):
                v = StaticV(v, d.id)
            elif isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter'):
                base = self.ev(fr, d.value)
                if isinstance(base, PropV) and d.attr == 'setter':
                    v = PropV(base.fget, v)
            else:
                dv = self.ev(fr, d)
                try:
                    v = self.call(dv, [v], {})
                except AbsRaise:
                    v = Unk('decorator')
                if isinstance(v, Unk):
                    self.note('decorator on %s' % st.name)
        name = st.name
        if fr.cls and fr.env.get('__isclass__') and name.startswith('__') and not name.endswith('__'):
            name = '_%s%s' % (fr.cls.lstrip('_'), name)
        fr.env[name] = v

    def st_ClassDef(self, fr, st):
        bases = [self.ev(fr, b) for b in st.bases]
        cf = Frame(fr.mod, '<class>', st.name, fr)
        cf.env['__isclass__'] = True
        self.frames.append(cf)
        try:
            for s in st.body:
                try:
                    self.exec_stmt(cf, s)
                except (AbsRaise, PathEnd):
                    pass
        finally:
            self.frames.pop()
        attrs = dict(cf.env)
        attrs.pop('__isclass__')
        fr.env[st.name] = ClassV(st.name, fr.mod, attrs, bases)

    # imports
    def st_Import(self, fr, st):
        for a in st.names:
            top = a.name.split('.')[0]
            if top == 'la':
                self.load(a.name) if fr.func == '<module>' else None
                m = self.prog.modules.get('la')
                target = a.name if a.asname else 'la'
                mm = self.prog.modules.get(target)
                fr.env[a.asname or 'la'] = ModV(mm) if mm else Unk('module')
            else:
                fr.env[a.asname or top] = Nat(self.models.canon(a.name if a.asname else top))

    def st_ImportFrom(self, fr, st):
        mod = st.module or ''
        if st.level:
            parts = fr.mod.name.split('.')
            if not fr.mod.ispkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (st.level - 1)]
            mod = '.'.join(parts + ([mod] if mod else []))
        if mod == '__future__':
            return
        if mod.split('.')[0] == 'la':
            if mod == 'la.cflabel':
                pass
            m = self.load(mod)
            for a in st.names:
                if a.name == '*':
                    if m is None:
                        continue
                    names = m.env.get('__all__')
                    if isinstance(names, PyList) and names.items is not None:
                        ns = [x.v for x in names.items if isinstance(x, Const)]
                    else:
                        ns = [n for n in m.env if not n.startswith('_')]
                    for n in ns:
                        if n in m.env:
                            fr.env[n] = m.env[n]
                    continue
                if m is not None and a.name in m.env:
                    val = m.env[a.name]
                elif self.load(mod + '.' + a.name) is not None:
                    val = ModV(self.prog.modules[mod + '.' + a.name])
                elif mod == 'la.cflabel':
                    over = self.prog.overrides.get((mod, a.name))
                    if over == 'missing':
                        self.raise_('ImportError')
                    val = over if over is not None else Nat('cflabel.' + a.name)
                elif m is not None and m.state == 'running':
                    val = Unk('circular import of %s' % a.name)
                    val = LazyName(m, a.name)
                else:
                    val = Unk('import %s.%s' % (mod, a.name))
                nm = a.asname or a.name
                if nm in fr.globals:
                    self.event('globalwrite', name=nm, module=fr.mod.name, imported=True)
                    self.gwrites[(fr.mod.name, nm)] = val
                else:
                    fr.env[nm] = val
            return
        for a in st.names:
            nm = a.asname or a.name
            val = Nat(self.models.canon(mod) + '.' + a.name)
            if nm in fr.globals:
                self.event('globalwrite', name=nm, module=fr.mod.name, imported=True)
                self.gwrites[(fr.mod.name, nm)] = val
            else:
                fr.env[nm] = val

    # ------------------------------------------------------------ names
    def lookup(self, fr, name):
        if fr.cls and name.startswith('__') and not name.endswith('__'):
            pass
        f = fr
        while f is not None:
            if name in f.globals:
                break
            if name in f.env and not (f is not fr and f.env.get('__isclass__')):
                return self.delazy(f.env[name])
            f = f.parent
        key = (fr.mod.name, name)
        if key in self.gwrites:
            return self.gwrites[key]
        if name in fr.mod.env:
            return self.delazy(fr.mod.env[name])
        if name in ('__name__', '__file__'):
            return Const(fr.mod.name)
        if hasattr(_b, name) or name in ('xrange', 'unicode', 'long', 'basestring', 'reduce',
                                         'raw_input', 'cmp', 'StandardError', 'unichr', 'reload', 'file'):
            return Nat('builtins.' + name)
        if fr.func not in ('<module>', '<class>'):
            loc = getattr(fr, 'locals', ())
            if name in loc:
                # possibly unbound local
                self.raise_('UnboundLocalError')
        return self.unk('name %s' % name)

    def delazy(self, v):
        if isinstance(v, LazyName):
            r = v.mod.env.get(v.name)
            return self.delazy(r) if r is not None else Unk('lazy %s' % v.name)
        return v

    # ------------------------------------------------------------ expressions
    def ev(self, fr, e):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise PathEnd('step bound')
        if hasattr(e, 'lineno'):
            fr.line = e.lineno
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            return self.unk('expression %s' % type(e).__name__)
        return m(fr, e)

    def ev_Constant(self, fr, e):
        return Const(e.value)

    def ev_Name(self, fr, e):
        return self.lookup(fr, e.id)

    def ev_Tuple(self, fr, e):
        return TupleV(self.ev_elts(fr, e.elts))

    def ev_List(self, fr, e):
        return self.new(PyList(self.ev_elts(fr, e.elts)))

    def ev_elts(self, fr, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                t, items = self.seq_of(self.ev(fr, x.value))
                if items is None:
                    out.append(self.unk('starred'))
                else:
                    out.extend(items)
            else:
                out.append(self.ev(fr, x))
        return out

    def ev_Set(self, fr, e):
        items = [self.ev(fr, x) for x in e.elts]
        return self.new(PySet(T.mkset(('lst',) + tuple(self.freeze(x) for x in items))))

    def ev_Dict(self, fr, e):
        d = self.new(PyDict([]))
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(fr, v)
                if isinstance(o, PyDict) and o.entries is not None:
                    d.entries.extend(o.entries)
                continue
            kv = self.ev(fr, k)
            vv = self.ev(fr, v)
            d.entries.append((self.freeze(kv), kv, vv))
        return d

    def ev_Attribute(self, fr, e):
        o = self.ev(fr, e.value)
        fr.line = e.lineno
        return self.getattr(o, e.attr, fr)

    def mangle(self, fr, name):
        if fr is not None and fr.cls and name.startswith('__') and not name.endswith('__'):
            return '_%s%s' % (fr.cls.lstrip('_'), name)
        return name

    def getattr(self, o, name, fr=None):
        name = self.mangle(fr, name)
        o = self.delazy(o)
        if isinstance(o, Inst):
            if name in o.attrs:
                return o.attrs[name]
            m = o.cls.lookup(name)
            if m is None:
                if name == '__class__':
                    return o.cls
                if name == '__dict__':
                    return Unk('__dict__')
                self.raise_('AttributeError')
            return self.bind_attr(o, m)
        if isinstance(o, ModV):
            r = o.mod.env.get(name)
            if r is not None:
                return self.delazy(r)
            sub = self.prog.modules.get(o.mod.name + '.' + name)
            if sub is not None:
                return ModV(sub)
            return self.unk('module attribute %s' % name)
        if isinstance(o, ClassV):
            m = o.lookup(name)
            if m is None:
                if name == '__name__':
                    return Const(o.name)
                return self.unk('class attribute %s' % name)
            if isinstance(m, StaticV):
                if m.kind == 'classmethod':
                    return BoundV(m.func, o)
                return m.func
            return m
        if isinstance(o, FuncV):
            if name in ('im_func', '__func__'):
                return o
            if name == '__name__':
                return Const(o.name)
            return self.unk('function attribute %s' % name)
        if isinstance(o, BoundV):
            if name in ('im_func', '__func__'):
                return o.func
            if name in ('im_self', '__self__'):
                return o.self_
            return self.unk('method attribute')
        if isinstance(o, Unk):
            return Unk('attribute of ' + o.why)
        return self.models.native_getattr(self, o, name)

    def bind_attr(self, o, m):
        if isinstance(m, PropV):
            return self.call(BoundV(m.fget, o), [], {})
        if isinstance(m, StaticV):
            return m.func if m.kind == 'staticmethod' else BoundV(m.func, o.cls)
        if isinstance(m, FuncV):
            return BoundV(m, o)
        return m

    def setattr(self, o, name, v, fr=None):
        name = self.mangle(fr, name)
        if isinstance(o, Inst):
            m = o.cls.lookup(name)
            if isinstance(m, PropV):
                if m.fset is not None:
                    self.call(BoundV(m.fset, o), [v], {})
                    return
                self.raise_('AttributeError')
            if name in o.attrs or not self.constructing(o):
                self.mutate(o, 'attribute ' + name)
            o.attrs[name] = v
        elif isinstance(o, Arr):
            self.models.arr_setattr(self, o, name, v)
        elif isinstance(o, ModV):
            self.event('globalwrite', name=name, module=o.mod.name)
            self.gwrites[(o.mod.name, name)] = v
        elif isinstance(o, ClassV):
            self.event('globalwrite', name=o.name + '.' + name, module=o.mod.name)
        elif isinstance(o, Unk):
            pass
        elif isinstance(o, (FuncV, Nat)):
            self.event('globalwrite', name=getattr(o, 'name', '?') + '.' + name, module='?')

    def constructing(self, o):
        return o.origin is None

    def ev_Subscript(self, fr, e):
        o = self.ev(fr, e.value)
        i = self.ev_index(fr, e.slice)
        fr.line = e.lineno
        return self.getitem(o, i)

    def ev_index(self, fr, s):
        if isinstance(s, ast.Slice):
            return self.ev_Slice(fr, s)
        if isinstance(s, ast.Tuple):
            return TupleV([self.ev_index(fr, x) for x in s.elts])
        if type(s).__name__ == 'Index':
            return self.ev_index(fr, s.value)
        return self.ev(fr, s)

    def ev_Slice(self, fr, e):
        f = lambda x: self.ev(fr, x) if x is not None else Const(None)
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    def ev_UnaryOp(self, fr, e):
        v = self.ev(fr, e.operand)
        op = type(e.op).__name__
        return self.unop(op, v)

    def unop(self, op, v):
        if op == 'Not':
            t = self.truth_term(v)
            r = T.neg(t)
            if T.isk(r):
                return Const(r[2])
            return Sym(r, 'bool')
        if isinstance(v, Arr):
            return self.models.ew(self, {'USub': 'neg', 'UAdd': 'pos', 'Invert': 'invert'}[op], [v])
        if isinstance(v, Inst):
            n = {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[op]
            m = v.cls.lookup(n)
            if m is None:
                self.raise_('TypeError')
            return self.call(BoundV(m, v), [], {})
        if isinstance(v, Const):
            try:
                return Const({'USub': lambda x: -x, 'UAdd': lambda x: +x,
                              'Invert': lambda x: (not x) if isinstance(x, (NpBool, bool)) else ~x}[op](v.v))
            except Exception:
                self.raise_('TypeError')
        if isinstance(v, Sym):
            if op == 'USub' and v.typ in ('int', 'float', 'num'):
                return self.num(T.pmul(K(-1), v.term), v.typ)
            if op == 'Invert' and v.typ == 'bool':
                return Sym(T.neg(v.term), 'bool')
            return Sym(('app', op, v.term), v.typ)
        return Unk('unary %s' % op)

    def num(self, t, typ='int'):
        if T.isk(t):
            return Const(T.kval(t))
        return Sym(t, typ)

    def ev_BinOp(self, fr, e):
        a = self.ev(fr, e.left)
        b = self.ev(fr, e.right)
        fr.line = e.lineno
        return self.binop(type(e.op).__name__, a, b)

    DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'div', 'FloorDiv': 'floordiv',
              'Pow': 'pow', 'Mod': 'mod', 'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor',
              'LShift': 'lshift', 'RShift': 'rshift', 'MatMult': 'matmul'}

    def binop(self, op, a, b):
        if isinstance(a, Inst):
            m = a.cls.lookup('__%s__' % self.DUNDER[op])
            if m is not None:
                return self.call(BoundV(m, a), [b], {})
        if isinstance(b, Inst):
            m = b.cls.lookup('__r%s__' % self.DUNDER[op])
            if m is not None:
                return self.call(BoundV(m, b), [a], {})
            self.raise_('TypeError')
        if isinstance(a, Unk) or isinstance(b, Unk):
            if isinstance(a, Arr) or isinstance(b, Arr):
                arr = a if isinstance(a, Arr) else b
                return self.mkarr(arr.dims, ('opqc', T.fresh()), self.newkind())
            return Unk('operation on unknown')
        if isinstance(a, Arr) or isinstance(b, Arr):
            name = {'Add': 'add', 'Sub': 'subtract', 'Mult': 'multiply', 'Div': 'divide',
                    'FloorDiv': 'floor_divide', 'Pow': 'power', 'Mod': 'mod', 'BitAnd': 'bitand',
                    'BitOr': 'bitor', 'BitXor': 'bitxor'}.get(op, op)
            return self.models.ew(self, name, [a, b])
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return Const(pybin(op, a.v, b.v))
            except ZeroDivisionError:
                self.raise_('ZeroDivisionError')
            except Exception:
                self.raise_('TypeError')
        if isinstance(a, PySet) and op in ('BitAnd', 'BitOr', 'Sub', 'BitXor'):
            tb = b.term if isinstance(b, PySet) else None
            if tb is None:
                return self.unk('set op')
            return self.setop(op, a.term, tb)
        if isinstance(a, PyList) and isinstance(b, PyList) and op == 'Add':
            if a.items is not None and b.items is not None:
                return self.new(PyList(a.items + b.items))
            return self.mkseq(T.cat(self.seqterm_of(a), self.seqterm_of(b)))
        if isinstance(a, TupleV) and isinstance(b, TupleV) and op == 'Add':
            return TupleV(a.items + b.items)
        if op == 'Mult' and (isinstance(a, (PyList, TupleV)) or isinstance(b, (PyList, TupleV))):
            s, n = (a, b) if isinstance(a, (PyList, TupleV)) else (b, a)
            t, items = self.seq_of(s)
            if items is not None and isinstance(n, Const) and isinstance(n.v, int):
                return self.new(PyList(items * n.v)) if isinstance(s, PyList) else TupleV(items * n.v)
            if items is not None and len(items) == 1 and isinstance(n, Sym):
                j = T.fresh_j()
                return self.mkseq(T.comp(((j, n.term),), self.freeze(items[0]), TRUE))
            return self.new(PyList(None, ('opq', T.fresh())))
        if op in ('Add', 'Mod'):
            r = self.h5.strop(self, op, a, b)
            if r is not None:
                return r
        if op == 'Mod' and isinstance(a, Const) and isinstance(a.v, str):
            return Sym(('app', 'fmt', K(a.v), self.freeze(b)), 'str')
        if isinstance(a, (Const, Sym)) and isinstance(b, (Const, Sym)):
            return self.scalar_bin(op, a, b)
        return self.unk('binary %s on %s, %s' % (op, type(a).__name__, type(b).__name__))

    def setop(self, op, a, b):
        if op == 'BitAnd':
            t = T.inter(a, b)
        elif op == 'BitOr':
            t = T.union(a, b)
        elif op == 'Sub':
            t = setdiff(a, b)
        else:
            t = ('set', ('opq', T.fresh()))
        return self.new(PySet(t))

    def typ(self, v):
        if isinstance(v, Sym):
            return v.typ
        if isinstance(v, Const):
            return {'int': 'int', 'float': 'float', 'bool': 'int', 'str': 'str'}.get(type(v.v).__name__, 'any')
        return 'any'

    def scalar_bin(self, op, a, b):
        ta, tb = self.typ(a), self.typ(b)
        if ta == 'str' or tb == 'str':
            return Sym(('app', op, self.freeze(a), self.freeze(b)), 'str')
        x, y = self.freeze(a), self.freeze(b)
        numeric = ('int', 'float', 'num', 'bool')
        typ = 'int' if ta in ('int', 'bool') and tb in ('int', 'bool') else 'num'
        if ta in numeric and tb in numeric:
            if op == 'Add':
                return self.num(T.padd(x, y), typ)
            if op == 'Sub':
                return self.num(T.psub(x, y), typ)
            if op == 'Mult':
                return self.num(T.pmul(x, y), typ)
            if op == 'BitAnd' and ta == 'bool':
                return Sym(T.conj([x, y]), 'bool')
            if op == 'BitOr' and ta == 'bool':
                return Sym(T.disj([x, y]), 'bool')
        if op == 'BitAnd' and ta == tb == 'bool':
            return Sym(T.conj([x, y]), 'bool')
        return Sym(('app', op, x, y), 'int' if typ == 'int' and op in ('FloorDiv', 'Mod') else 'num')

    def ev_BoolOp(self, fr, e):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(fr, x)
            if i == len(e.values) - 1:
                return v
            if isinstance(v, Sym) and v.typ == 'bool' and self.pure(e.values[i + 1:]):
                # keep as a term when the rest is a pure boolean too
                save = self.snapshot_light()
                try:
                    rest = [self.ev(fr, y) for y in e.values[i + 1:]]
                except AbsRaise:
                    rest = None
                if rest is not None and all(isinstance(r, (Sym, Const)) and
                                            (isinstance(r, Const) and isinstance(r.v, bool) or
                                             isinstance(r, Sym) and r.typ == 'bool') for r in rest):
                    ts = [v.term] + [self.truth_term(r) for r in rest]
                    t = T.conj(ts) if isand else T.disj(ts)
                    return Const(t[2]) if T.isk(t) else Sym(t, 'bool')
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, Sym) else Const(False) if v.typ == 'bool' else v
            if not isand and t:
                return v if not (isinstance(v, Sym) and v.typ == 'bool') else Const(True)
        return v

    def snapshot_light(self):
        return None

    def pure(self, exprs):
        for e in exprs:
            for n in ast.walk(e):
                if isinstance(n, ast.Call):
                    f = n.func
                    if not (isinstance(f, ast.Name) and f.id in ('len', 'isinstance', 'type', 'int')):
                        return False
                if isinstance(n, (ast.Subscript, ast.Lambda, ast.ListComp)):
                    return False
        return True

    def ev_IfExp(self, fr, e):
        if self.truth(self.ev(fr, e.test)):
            return self.ev(fr, e.body)
        return self.ev(fr, e.orelse)

    CMP = {'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=',
           'Is': 'is', 'IsNot': 'is not', 'In': 'in', 'NotIn': 'not in'}

    def ev_Compare(self, fr, e):
        a = self.ev(fr, e.left)
        res = None
        for op, right in zip(e.ops, e.comparators):
            b = self.ev(fr, right)
            r = self.compare(self.CMP[type(op).__name__], a, b)
            if len(e.ops) == 1:
                return r
            if not self.truth(r):
                return Const(False)
            res = r
            a = b
        return Const(True)

    def bool_(self, t):
        if T.isk(t):
            return Const(bool(t[2]))
        return Sym(t, 'bool')

    def compare(self, op, a, b):
        if op == 'is not':
            return self.unop('Not', self.compare('is', a, b))
        if op == 'not in':
            return self.unop('Not', self.compare('in', a, b))
        if op == 'is':
            return self.is_(a, b)
        if op == 'in':
            return self.contains(b, a)
        DC = {'==': '__eq__', '!=': '__ne__', '<': '__lt__', '>': '__gt__', '<=': '__le__', '>=': '__ge__'}
        SW = {'==': '==', '!=': '!=', '<': '>', '>': '<', '<=': '>=', '>=': '<='}
        if isinstance(a, Inst):
            m = a.cls.lookup(DC[op])
            if m is not None:
                return self.call(BoundV(m, a), [b], {})
        if isinstance(b, Inst):
            m = b.cls.lookup(DC[SW[op]])
            if m is not None:
                return self.call(BoundV(m, b), [a], {})
        if isinstance(a, Unk) or isinstance(b, Unk):
            if isinstance(a, Arr) or isinstance(b, Arr):
                arr = a if isinstance(a, Arr) else b
                return self.mkarr(arr.dims, ('opqc', T.fresh()), frozenset(['bool']))
            return Unk('comparison')
        if isinstance(a, Arr) or isinstance(b, Arr):
            o = b if isinstance(a, Arr) else a
            if isinstance(o, Const) and (o.v is None or o.v is NotImplemented) and op in ('==', '!='):
                return Const(op == '!=')        # numpy 1.8: scalar comparison with None
            nm = {'==': 'equal', '!=': 'not_equal', '<': 'less', '>': 'greater',
                  '<=': 'less_equal', '>=': 'greater_equal'}[op]
            return self.models.ew(self, nm, [a, b])
        if op in ('==', '!='):
            r = self.equal(a, b)
            return r if op == '==' else self.unop('Not', r)
        # orderings
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return Const({'<': lambda x, y: x < y, '>': lambda x, y: x > y,
                              '<=': lambda x, y: x <= y, '>=': lambda x, y: x >= y}[op](a.v, b.v))
            except TypeError:
                # python 2 orders None below numbers
                if a.v is None and b.v is not None:
                    return Const(op in ('<', '<='))
                if b.v is None and a.v is not None:
                    return Const(op in ('>', '>='))
                if a.v is None and b.v is None:
                    return Const(op in ('<=', '>='))
                return Unk('ordering of constants')
        if isinstance(a, PySet) and isinstance(b, PySet):
            if op in ('>=', '>'):
                a, b, op = b, a, SW[op]
            return Sym(('app', 'subset' if op == '<=' else 'psubset', a.term, b.term), 'bool')
        if isinstance(a, (Const, Sym)) and isinstance(b, (Const, Sym)):
            if isinstance(a, Const) and a.v is None:
                return Const(op in ('<', '<='))
            if isinstance(b, Const) and b.v is None:
                return Const(op in ('>', '>='))
            x, y = self.freeze(a), self.freeze(b)
            num = ('int', 'float', 'num', 'bool')
            if self.typ(a) in num and self.typ(b) in num:
                t = {'<': lambda: T.lt(x, y), '<=': lambda: T.le(x, y),
                     '>': lambda: T.lt(y, x), '>=': lambda: T.le(y, x)}[op]()
            else:
                if op in ('>', '>='):
                    x, y, op = y, x, SW[op]
                t = ('app', op, x, y)
            return self.bool_(t)
        return Unk('ordering %s %s' % (type(a).__name__, type(b).__name__))

    def is_(self, a, b):
        if isinstance(a, Const) and isinstance(b, Const):
            if a.v is None or b.v is None or isinstance(a.v, bool) or isinstance(b.v, bool) \
                    or a.v is NotImplemented or b.v is NotImplemented:
                return Const(a.v is b.v)
            return Const(type(a.v) is type(b.v) and a.v == b.v)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Const) and (x.v is None or x.v is NotImplemented or isinstance(x.v, bool)):
                if isinstance(y, Unk):
                    return Sym(('unk', 'is', y.uid, repr(x.v)), 'bool')
                if isinstance(y, Sym) and y.typ in ('any',):
                    return Sym(T.eq(y.term, K(x.v)), 'bool') if x.v is None else Sym(T.eq(y.term, K(x.v)), 'bool')
                if isinstance(y, Sym) and y.typ == 'bool' and isinstance(x.v, bool):
                    return self.bool_(y.term if x.v else T.neg(y.term))
                return Const(False)
        if isinstance(a, (Nat, ClassV, DtypeV)) and isinstance(b, (Nat, ClassV, DtypeV)):
            return self.equal(a, b)
        if isinstance(a, Unk) or isinstance(b, Unk):
            return Unk('is')
        if isinstance(a, Arr) and isinstance(b, Arr):
            return Const(a is b or (a.buf is b.buf and a.dims == b.dims))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and x.typ in ('str', 'int', 'float', 'bool') and \
                    not isinstance(y, (Sym, Const)):
                return Const(False)         # a string or number is no list, file, object
        if isinstance(a, Sym) or isinstance(b, Sym):
            return Sym(('app', 'is', self.freeze(a), self.freeze(b)), 'bool')
        return Const(a is b)

    def equal(self, a, b):
        """value of a == b (no arrays, no instances)"""
        if a is b and not isinstance(a, (Unk, Const)):
            return Const(True)
        if isinstance(a, Const) and isinstance(b, Const):
            if a.v is NotImplemented or b.v is NotImplemented:
                return Const(a.v is b.v)
            try:
                return Const(bool(a.v == b.v))
            except Exception:
                return Unk('eq')
        if isinstance(a, DtypeV) or isinstance(b, DtypeV):
            return self.models.dtype_eq(self, a, b)
        if isinstance(a, (Nat, ClassV)) and isinstance(b, (Nat, ClassV)):
            return Const(self.typename(a) == self.typename(b))
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            x, y = (a, b) if isinstance(a, TypeOf) else (b, a)
            if isinstance(y, TypeOf):
                return Sym(T.eq(x.term, y.term), 'bool')
            return Sym(('typeis', x.term, self.typename(y)), 'bool')
        if isinstance(a, (PyList, TupleV)) and isinstance(b, (PyList, TupleV)):
            la = isinstance(a, PyList) and a.pytype == 'list'
            lb = isinstance(b, PyList) and b.pytype == 'list'
            if la != lb:
                return Const(False)
            ta, ia = self.seq_of(a)
            tb, ib = self.seq_of(b)
            if ia is not None and ib is not None:
                if len(ia) != len(ib):
                    return Const(False)
                for x, y in zip(ia, ib):
                    if isinstance(x, Inst) or isinstance(y, Inst):
                        return Unk('eq')
                    if isinstance(x, Arr) or isinstance(y, Arr):
                        return Unk('eq')
                    r = self.equal(x, y)
                    if not self.truth(r):
                        return Const(False)
                return Const(True)
            x = ta if ta is not None else ('lst',) + tuple(self.freeze(z) for z in ia)
            y = tb if tb is not None else ('lst',) + tuple(self.freeze(z) for z in ib)
            return self.bool_(T.eq(self.facts.norm(x), self.facts.norm(y)))
        if isinstance(a, PySet) and isinstance(b, PySet):
            return self.bool_(T.eq(a.term, b.term))
        if isinstance(a, (Sym, Const)) and isinstance(b, (Sym, Const)):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Const) and x.v is None and isinstance(y, Sym) and y.typ != 'any':
                    return Const(False)
                if isinstance(x, Const) and isinstance(x.v, str) and isinstance(y, Sym) and \
                        y.typ in ('int', 'float', 'num', 'bool'):
                    return Const(False)
            ta, tb = self.freeze(a), self.freeze(b)
            if isinstance(a, Sym) and a.typ == 'bool' and tb in (TRUE, FALSE):
                return self.bool_(ta if tb == TRUE else T.neg(ta))
            if isinstance(b, Sym) and b.typ == 'bool' and ta in (TRUE, FALSE):
                return self.bool_(tb if ta == TRUE else T.neg(tb))
            return self.bool_(T.eq(ta, tb))
        if isinstance(a, Unk) or isinstance(b, Unk):
            return Unk('eq')
        if isinstance(a, (Sym,)) or isinstance(b, (Sym,)):
            return Sym(T.eq(self.freeze(a), self.freeze(b)), 'bool')
        if type(a) is not type(b):
            return Const(False)
        if isinstance(a, SliceV):
            return self.bool_(T.eq(self.freeze(a), self.freeze(b)))
        if isinstance(a, (FuncV, BoundV)):
            return Const(a is b)
        return Unk('eq %s %s' % (type(a).__name__, type(b).__name__))

    def typename(self, v):
        if isinstance(v, Nat):
            n = v.name
            n = {'np.string_': 'np.str_', 'np.bytes_': 'np.str_', 'np.float_': 'np.float64', 'np.double': 'np.float64',
                 'np.int_': 'np.int64'}.get(n, n)
            return n
        if isinstance(v, ClassV):
            return 'class:' + v.name
        return repr(v)

    def contains(self, c, x):
        if isinstance(c, Unk):
            return Unk('in')
        if isinstance(c, self.h5.H5V):
            return c.contains(self, x)
        if isinstance(c, Const) and isinstance(c.v, str):
            if isinstance(x, Const):
                return Const(x.v in c.v)
            return Unk('in str')
        if isinstance(c, PyDict):
            if c.entries is not None:
                k = self.freeze(x)
                return self.bool_(T.disj([T.eq(k, e[0]) for e in c.entries]))
            if c.term and c.term[0] == 'dcomp':
                return self.bool_(T.member(self.freeze(x), T.mkset(T.comp(c.term[1], c.term[2], c.term[4]))))
            return Unk('in dict')
        if isinstance(c, PySet):
            return self.bool_(T.member(self.freeze(x), self.facts.norm(c.term)))
        if isinstance(c, (PyList, TupleV)):
            t, items = self.seq_of(c)
            if items is not None:
                ts = []
                for y in items:
                    r = self.compare('==', x, y) if not isinstance(x, (Arr,)) else Unk('in')
                    if isinstance(r, Unk):
                        return Unk('in')
                    ts.append(self.truth_term(r))
                return self.bool_(T.disj(ts))
            return self.bool_(T.member(self.freeze(x), t))
        if isinstance(c, Inst):
            m = c.cls.lookup('__contains__')
            if m is not None:
                return self.call(BoundV(m, c), [x], {})
        return Unk('in %s' % type(c).__name__)

    # ------------------------------------------------------------ comprehension
    def ev_ListComp(self, fr, e):
        return self.comp_(fr, e, 'list')

    def ev_GeneratorExp(self, fr, e):
        return self.comp_(fr, e, 'list')

    def ev_SetComp(self, fr, e):
        l = self.comp_(fr, e, 'list')
        return self.new(PySet(T.mkset(self.seqterm_of(l))))

    def ev_DictComp(self, fr, e):
        class P(object):
            pass
        tup = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        ast.copy_location(tup, e)
        q = ast.ListComp(elt=tup, generators=e.generators)
        ast.copy_location(q, e)
        l = self.comp_(fr, q, 'list')
        return self.models.dict_from_pairs(self, l)

    def comp_(self, fr, e, kind):
        out = self.new(PyList([]))
        sub = Frame(fr.mod, fr.func, fr.cls, fr)
        sub.line = fr.line
        self.new(sub)
        gens = e.generators

        def rec(i):
            if i == len(gens):
                self.list_append(out, self.ev(sub, e.elt))
                return
            g = gens[i]
            it = self.ev(sub if i else fr, g.iter)
            term, items = self.seq_of(it)

            def body(x):
                self.assign(sub, g.target, x)
                for c in g.ifs:
                    if not self.truth(self.ev(sub, c)):
                        return
                rec(i + 1)
            if items is not None:
                for x in items:
                    body(x)
            elif term is None:
                out.items, out.term = None, ('opq', T.fresh())
                if not isinstance(it, Unk):
                    self.note('comprehension over %s' % type(it).__name__)
            else:
                self.each(it, body)
        rec(0)
        return out

    # ------------------------------------------------------------ subscripts
    def getitem(self, o, i):
        o = self.delazy(o)
        if isinstance(o, self.h5.H5V):
            return o.getitem(self, i)
        if isinstance(o, Inst):
            m = o.cls.lookup('__getitem__')
            if m is None:
                self.raise_('TypeError')
            return self.call(BoundV(m, o), [i], {})
        if isinstance(o, Arr):
            return self.models.index(self, o, i)
        if isinstance(o, self.models.FlatV):
            return self.models.flat_get(self, o, i)
        if isinstance(o, self.models.FlagsV) and isinstance(i, Const):
            return o.get(self, i.v)
        if isinstance(o, (PyList, TupleV)):
            t, items = self.seq_of(o)
            if isinstance(i, SliceV):
                s = self.exact_slice(i)
                if items is not None and s is not None:
                    r = items[s]
                    return self.new(PyList(r)) if isinstance(o, PyList) else TupleV(r)
                st = self.seqterm_of(o)
                return self.mkseq(self.slc(st, *[self.freeze(x) for x in (i.a, i.b, i.c)]))
            i = self.as_int(i)
            if items is not None and isinstance(i, Const):
                if isinstance(i.v, bool) or isinstance(i.v, int):
                    try:
                        return items[int(i.v)]
                    except IndexError:
                        self.raise_('IndexError')
                self.raise_('TypeError')
            if isinstance(i, (Const, Sym)):
                if items is not None and len(items) == 1 and isinstance(items[0], (PyList, Arr, Inst)):
                    return items[0]
                st = t if t is not None else ('lst',) + tuple(self.freeze(x) for x in items)
                if isinstance(i, Sym) or isinstance(i.v, int):
                    it = self.freeze(i)
                    return self.thaw(T.at(self.facts.norm(st), self.facts.norm(it)))
                self.raise_('TypeError')
            if isinstance(i, (PyList, TupleV)):
                self.raise_('TypeError')
            return Unk('list item')
        if isinstance(o, PyDict):
            return self.models.dict_get(self, o, i)
        if isinstance(o, Sym) and isinstance(i, (PyList, TupleV)) and i.items and \
                all(isinstance(x, Const) and x.v is None for x in i.items) and \
                (o.typ == 'npscalar' or o.term[:2] == ('app', 'val')):
            # scalar[None]: an array with one element
            return self.mkarr((ONE,) * len(i.items), ('kc', o.term), self.newkind())
        if isinstance(o, Const) and isinstance(o.v, str):
            if isinstance(i, Const) and isinstance(i.v, int):
                try:
                    return Const(o.v[i.v])
                except IndexError:
                    self.raise_('IndexError')
            if isinstance(i, SliceV):
                s = self.exact_slice(i)
                if s is not None:
                    return Const(o.v[s])
            return Unk('str item')
        if isinstance(o, (Nat, NatMeth)):
            return self.models.nat_getitem(self, o, i)
        if isinstance(o, Sym):
            if isinstance(i, TupleV) and len(i.items) == 0:
                return o
            it = self.freeze(i)
            return self.thaw_or_sym(T.at(o.term, it))
        return Unk('subscript of %s' % type(o).__name__)

    def thaw_or_sym(self, t):
        return self.thaw(t)

    def as_int(self, i):
        if isinstance(i, Arr) and len(i.dims) == 0:
            return Sym(('app', 'item', self.content(i)), 'int')
        return i

    def setitem(self, o, i, v):
        o = self.delazy(o)
        if isinstance(o, self.h5.H5V):
            o.setitem(self, i, v)
            return
        if isinstance(o, Inst):
            m = o.cls.lookup('__setitem__')
            if m is None:
                self.raise_('TypeError')
            self.call(BoundV(m, o), [i, v], {})
            return
        if isinstance(o, Arr):
            self.models.store(self, o, i, v)
            return
        if isinstance(o, self.models.FlatV):
            self.models.flat_set(self, o, i, v)
            return
        if isinstance(o, PyList):
            self.mutate(o, 'item assignment')
            if isinstance(i, SliceV):
                s = self.exact_slice(i)
                t, items = self.seq_of(v)
                if o.items is not None and s is not None and items is not None:
                    o.items[s] = items
                    return
                if s == slice(None, None, None) and t is not None:
                    o.items, o.term = None, t
                    return
                o.items, o.term = None, ('opq', T.fresh())
                return
            i = self.as_int(i)
            if o.items is not None and isinstance(i, Const) and isinstance(i.v, int):
                try:
                    o.items[i.v] = v
                except IndexError:
                    self.raise_('IndexError')
                return
            if isinstance(i, Sym) or (isinstance(i, Const) and o.items is None):
                base = o.term if o.items is None else ('lst',) + tuple(self.freeze(x) for x in o.items)
                if o.items is not None and len(o.items) == 1:
                    o.items[0] = v
                    return
                o.items, o.term = None, ('ups', base, self.freeze(i), self.freeze(v))
                return
            o.items, o.term = None, ('opq', T.fresh())
            return
        if isinstance(o, PyDict):
            self.mutate(o, 'key assignment')
            k = self.freeze(i)
            if o.entries is not None:
                for n, e in enumerate(o.entries):
                    if e[0] == k:
                        o.entries[n] = (k, i, v)
                        return
                o.entries = o.entries + [(k, i, v)]
            return
        if isinstance(o, Unk):
            return
        if isinstance(o, (TupleV, Const)):
            self.raise_('TypeError')

    # ------------------------------------------------------------ calls
    def ev_Lambda(self, fr, e):
        defaults = [self.ev(fr, d) for d in e.args.defaults]
        return FuncV(e, fr.mod, fr.cls, fr, '<lambda>', defaults)

    def ev_Yield(self, fr, e):
        v = self.ev(fr, e.value) if e.value is not None else Const(None)
        self.event('yield', value=v)
        f = fr
        while f is not None:
            cb = getattr(f, 'yieldcb', None)
            if cb is not None:
                cb(v)
                break
            f = f.parent
        return Const(None)

    def run_gen(self, g, cb):
        fr = g.frame
        fr.yieldcb = cb
        self.frames.append(fr)
        depth = len(self.frames)
        try:
            self.exec_block(fr, g.func.node.body)
        except ReturnEx:
            pass
        finally:
            del self.frames[depth - 1:]

    def gen_list(self, g):
        if g.result is None:
            lst = self.new(PyList([]))
            g.result = lst
            self.run_gen(g, lambda v: self.list_append(lst, v))
        return g.result

    def ev_JoinedStr(self, fr, e):
        return Sym(('app', 'fstr', K(T.fresh())), 'str')

    def ev_NamedExpr(self, fr, e):
        v = self.ev(fr, e.value)
        self.assign(fr, e.target, v)
        return v

    def ev_Starred(self, fr, e):
        return self.unk('starred')

    def ev_Call(self, fr, e):
        f = self.ev(fr, e.func)
        args, kwargs, unknown = [], {}, False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(fr, a.value)
                t, items = self.seq_of(v)
                if items is None:
                    if t is not None:
                        args.append(StarV(v))
                    else:
                        unknown = True
                else:
                    args.extend(items)
            else:
                args.append(self.ev(fr, a))
        for k in e.keywords:
            v = self.ev(fr, k.value)
            if k.arg is None:
                if isinstance(v, PyDict) and v.entries is not None:
                    for kt, kv, vv in v.entries:
                        if isinstance(kv, Const):
                            kwargs[kv.v] = vv
                elif isinstance(v, PyDict):
                    kwargs['**'] = v
                else:
                    unknown = True
            else:
                kwargs[k.arg] = v
        fr.line = e.lineno
        if isinstance(f, Nat) and f.name in ('builtins.eval', 'builtins.locals', 'builtins.globals',
                                             'builtins.super', 'builtins.vars'):
            return self.special_call(fr, f.name, args)
        if unknown:
            return self.unk('call with unknown arguments')
        return self.call(f, args, kwargs)

    def special_call(self, fr, name, args):
        if name == 'builtins.eval' and args and isinstance(args[0], Const) and isinstance(args[0].v, str):
            try:
                t = ast.parse(args[0].v.strip(), mode='eval')
            except SyntaxError:
                self.raise_('SyntaxError')
            for n in ast.walk(t):
                if hasattr(n, 'lineno'):
                    n.lineno = fr.line
            return self.ev(fr, t.body)
        return self.unk(name)

    def call(self, f, args, kwargs):
        f = self.delazy(f)
        if isinstance(f, BoundV):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, StaticV):
            return self.call(f.func, args, kwargs)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Nat):
            return self.models.call_nat(self, f.name, list(args), dict(kwargs))
        if isinstance(f, NatMeth):
            return self.models.call_meth(self, f.obj, f.name, list(args), dict(kwargs))
        if isinstance(f, PartialV):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.func, list(f.args) + list(args), kw)
        if isinstance(f, UserFunc):
            return self.call_user(f, args, kwargs)
        if isinstance(f, CtxFunc):
            return CtxV(self.call(f.func, args, kwargs))
        if isinstance(f, Inst):
            m = f.cls.lookup('__call__')
            if m is not None:
                return self.call(BoundV(m, f), args, kwargs)
        if isinstance(f, Unk):
            return Unk('call of ' + f.why)
        if isinstance(f, (Const, Arr, PyList)):
            self.raise_('TypeError')
        return self.unk('call of %s' % type(f).__name__)

    def call_user(self, f, args, kwargs):
        self.event('usercall', name=f.name, args=list(args), kwargs=dict(kwargs),
                   frozen=[self.freeze_deep(a) for a in args],
                   fkw={k: self.freeze_deep(v) for k, v in kwargs.items()})
        if f.ret is not None:
            return f.ret(self, args, kwargs)
        arrs = [a for a in args if isinstance(a, Arr)]
        if arrs and isinstance(kwargs.get('axis'), Const) and isinstance(kwargs['axis'].v, int) and \
                -len(arrs[0].dims) <= kwargs['axis'].v < 0:
            # the same axis, counted from the end
            kwargs = dict(kwargs, axis=Const(kwargs['axis'].v + len(arrs[0].dims)))
        fz = tuple(self.freeze_deep(a) for a in args) + tuple(
            ('kw', k, self.freeze_deep(v)) for k, v in sorted(kwargs.items()))
        if arrs:
            a = arrs[0]
            dims = a.dims
            ax = kwargs.get('axis')
            if isinstance(ax, Const) and isinstance(ax.v, int):
                # a function that reduces along the axis
                if not 0 <= ax.v < len(dims):
                    self.raise_('ValueError')
                dims = [d for k, d in enumerate(dims) if k != ax.v]
            return self.mkarr(dims, ('ucall', f.name) + fz, self.newkind())
        return Sym(('app', 'user:' + f.name) + fz, 'any')

    def freeze_deep(self, v):
        return self.freeze(v)

    def instantiate(self, cls, args, kwargs):
        init = cls.lookup('__init__')
        obj = self.new(Inst(cls))
        if init is not None:
            self.call(BoundV(init, obj), args, kwargs)
        return obj

    def bind(self, f, args, kwargs, fr):
        a = f.node.args
        names = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        args = list(args)
        kwargs = dict(kwargs)
        star = [x for x in args if isinstance(x, StarV)]
        if star:
            raise PathEnd('abstract *args to analysed function')
        if len(args) > len(names) and a.vararg is None:
            self.raise_('TypeError')
        env = fr.env
        for n, v in zip(names, args):
            env[n] = v
        extra = args[len(names):]
        for k in list(kwargs):
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in env:
                    self.raise_('TypeError')
                env[k] = kwargs.pop(k)
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in env:
                di = i - (len(names) - nd)
                if di >= 0:
                    env[n] = f.defaults[di]
                else:
                    self.raise_('TypeError')
        for x in a.kwonlyargs:
            if x.arg not in env:
                if x.arg in f.kwdefaults:
                    env[x.arg] = f.kwdefaults[x.arg]
                else:
                    self.raise_('TypeError')
        if a.vararg is not None:
            env[a.vararg.arg] = TupleV(extra)
        if a.kwarg is not None:
            d = self.new(PyDict([(K(k), Const(k), v) for k, v in kwargs.items() if k != '**']))
            if '**' in kwargs:
                d.entries, d.term = None, ('opq', T.fresh())
            env[a.kwarg.arg] = d
        elif kwargs:
            self.raise_('TypeError')

    def call_func(self, f, args, kwargs):
        if len(self.frames) > self.MAXDEPTH:
            raise PathEnd('call depth')
        fr = Frame(f.mod, f.name, f.cls, f.closure)
        if not hasattr(f.node, '_locals'):
            f.node._locals = local_names(f.node)
            f.node._gen = is_generator(f.node)
        fr.locals = f.node._locals
        self.bind(f, args, kwargs, fr)
        fr.line = f.node.lineno
        self.new(fr)
        self.calls = getattr(self, 'calls', set())
        self.calls.add(f.mod.name + ':' + f.qual)
        if f.node._gen:
            return self.new(GenV(f, fr))
        self.frames.append(fr)
        depth = len(self.frames)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(fr, f.node.body)
            try:
                self.exec_block(fr, f.node.body)
            except ReturnEx as e:
                return e.val
            return Const(None)
        finally:
            del self.frames[depth - 1:]


class GenV(Heap):
    """generator object: its body runs when it is consumed"""
    fields = ('result',)

    def __init__(self, func, frame):
        self.func = func
        self.frame = frame
        self.result = None


class CtxFunc(V):
    """function decorated with contextlib.contextmanager"""
    def __init__(self, func):
        self.func = func


class CtxV(V):
    def __init__(self, gen):
        self.gen = gen


class Escape(Exception):
    """return / break / continue out of a with block whose context manager is
    a generator"""
    def __init__(self, exc):
        self.exc = exc


class LazyName(V):
    def __init__(self, mod, name):
        self.mod = mod
        self.name = name


class StarV(V):
    def __init__(self, v):
        self.v = v


def without(t, x):
    if t == x:
        return TRUE
    if isinstance(t, tuple):
        return tuple(without(y, x) for y in t)
    return t


class TypeOf(V):
    """type(x) for a scalar of unknown type"""
    def __init__(self, term):
        self.term = term


class PartialV(V):
    def __init__(self, func, args, kwargs):
        self.func = func
        self.args = args
        self.kwargs = kwargs


class NpBool(object):
    pass


def setdiff(a, b):
    if a == b:
        return ('union', ())
    return ('diff', a, b)


def pybin(op, a, b):
    if op == 'Add':
        return a + b
    if op == 'Sub':
        return a - b
    if op == 'Mult':
        return a * b
    if op == 'Div':
        if isinstance(a, int) and isinstance(b, int):
            return a // b
        return a / b
    if op == 'FloorDiv':
        return a // b
    if op == 'Mod':
        return a % b
    if op == 'Pow':
        return a ** b
    if op == 'BitAnd':
        return a & b
    if op == 'BitOr':
        return a | b
    if op == 'BitXor':
        return a ^ b
    if op == 'LShift':
        return a << b
    if op == 'RShift':
        return a >> b
    raise TypeError(op)


def local_names(node):
    if isinstance(node, ast.Lambda):
        return set()
    out = set()
    glob = set()
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, ast.Global):
            glob.update(n.names)
        stack.extend(ast.iter_child_nodes(n))
    return out - glob


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False
