"""Running an entry point of the analysed package over abstract inputs."""
from . import terms as T
from .terms import K, TRUE, FALSE, NONE
from .values import *
from .interp import Interp, Program, AbsRaise, PathEnd, ReturnEx
from .facts import ALLKINDS


class Outcome(object):
    def __init__(self, kind, value, I, exc=None, site=None):
        self.kind = kind        # 'return' or 'raise'
        self.value = value
        self.exc = exc
        self.site = site
        self.taken = list(I.taken)
        self.events = list(I.events)


class Run(object):
    """all paths of one (entry, context)"""
    def __init__(self):
        self.paths = 0
        self.ended = {}
        self.capped = False


def explore(I, body, visit, maxpaths=3000):
    """body(I) -> value, run for every decision script; visit(I, outcome)"""
    run = Run()
    todo = [[]]
    while todo:
        script = todo.pop()
        if run.paths >= maxpaths:
            run.capped = True
            break
        I.reset(script)
        run.paths += 1
        try:
            v = body(I)
            out = Outcome('return', v, I)
        except AbsRaise as e:
            out = Outcome('raise', None, I, e.exc, e.site)
        except ReturnEx as e:
            out = Outcome('return', e.val, I)
        except PathEnd as e:
            if not e.infeasible:
                run.ended[e.why] = run.ended.get(e.why, 0) + 1
            todo.extend(I.pending)
            continue
        todo.extend(I.pending)
        del I.frames[:]
        visit(I, out)
    return run


FORCED = {}         # dtype kinds of the operands of the context under analysis


def kind_of(who, kind):
    if kind is not None:
        return kind
    return FORCED.get(who, FORCED.get('*', ('kv', who)))


def mklarry(I, who, ndim, kind=None, x=None):
    cls = I.prog.modules['la.deflarry'].env['larry']
    labs = []
    for k in range(ndim):
        labs.append(I.new(PyList(None, ('lab', who, k)), ('in', who, 'label[%d]' % k)))
    lab = I.new(PyList(labs), ('in', who, 'label'))
    dims = tuple(('lab', who, k) for k in range(ndim))
    a = I.mkarr(dims, ('X', who), kind_of(who, kind), ('in', who, 'x'))
    o = I.new(Inst(cls, {'x': a, 'label': lab}), ('in', who, 'larry'))
    return o


def mkarray(I, who, ndim, kind=None, dims=None):
    if dims is None:
        dims = tuple(('free', who, k) for k in range(ndim))
    return I.mkarr(dims, ('X', who), kind_of(who, kind), ('in', who, 'array'))


def mkseqin(I, who, typ='label', pytype='list'):
    return I.new(PyList(None, ('seq', who, typ), pytype), ('in', who, 'list'))


def describe(I, v, depth=0):
    if isinstance(v, Inst) and v.cls.name == 'larry':
        return 'larry(label=%s, x=%s)' % (describe(I, v.attrs.get('label')), describe(I, v.attrs.get('x')))
    if isinstance(v, Arr):
        return 'arr[%s](%s :%s)' % (', '.join(map(tstr, [I.facts.norm(d) for d in v.dims])), tstr(I.facts.norm(v.buf.content)),
                                    '|'.join(sorted(I.kindof(v))) if len(I.kindof(v)) < 6 else '*')
    if isinstance(v, PyList):
        if v.items is not None:
            return '[%s]' % ', '.join(describe(I, x) for x in v.items)
        return tstr(I.facts.norm(v.term))
    if isinstance(v, TupleV):
        return '(%s)' % ', '.join(describe(I, x) for x in v.items)
    if isinstance(v, Sym):
        return tstr(v.term)
    return repr(v)


def tstr(t):
    if not isinstance(t, tuple):
        return repr(t)
    if not t:
        return '()'
    h = t[0]
    if T.isk(t):
        return repr(t[2])
    if h == 'lab':
        return '%s.label[%s]' % (t[1], t[2])
    if h == 'seq' and len(t) > 1 and isinstance(t[1], str):
        return t[1]
    if h == 'j':
        return 'j%s' % t[1]
    if h == 'at':
        return '%s[%s]' % (tstr(t[1]), tstr(t[2]))
    if h == 'comp':
        return '[%s for %s%s]' % (tstr(t[2]), ', '.join('j%s<%s' % (j, tstr(n)) for j, n in t[1]),
                                  '' if t[3] == TRUE else ' if ' + tstr(t[3]))
    if h == 'X':
        return '%s.x' % t[1]
    if h == 'kc':
        return tstr(t[1])
    if h == 'one':
        return '1'
    if h == 'poly':
        return '(' + ' + '.join('%s%s' % ('' if c == 1 and m else c, ''.join('*' + tstr(a) for a in m)) for m, c in t[1]) + ')'
    if h == 'ew':
        return '%s(%s)' % (t[1], ', '.join(tstr(x) for x in t[2]))
    if isinstance(h, str):
        return '%s(%s)' % (h, ', '.join(tstr(x) for x in t[1:]))
    return '(%s)' % ', '.join(tstr(x) for x in t)
