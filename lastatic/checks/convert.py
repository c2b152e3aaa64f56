"""C25: flattening and conversion keep every element with its labels."""
import random

from ..core import Check, path_text
from .. import terms as T
from .. import oracle as O
from .. import seqmodel
from ..seqmodel import Cells, Lab, MISSING, Und
from ..catalog import larry_cases, create_cases, csv_cases, method, sym, arg
from .. import textmodel
from ..drivers import tstr
from ..values import *

TO = ('flatten', 'totuples', 'tolist', 'todict', 'tocsv', 'tofile')
FROM = ('unflatten', 'fromtuples', 'fromlist', 'fromdict', 'fromcsv')
POINTS = 60


class V0(object):
    """a value of the k-th row"""
    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return 'v%d' % self.k


handle = arg(lambda I: textmodel.open_(I, [Sym(('sym', 'FILE', 'str'), 'str'), Const('w')], {}), '<open file>')


class Text(tuple):
    """a text: pieces that are literal or ('s', x), the text of x"""

    def __new__(cls, xs):
        out = []
        for x in xs:
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            elif x != '':
                out.append(x)
        return tuple.__new__(cls, out)


def text(x):
    if isinstance(x, Text):
        return x
    if isinstance(x, str):
        return Text([x])
    raise Und('text')


class Texts(Cells):
    """a point at which texts have a value too"""

    def e_app(self, t, env):
        n = t[1]
        if n in ('str', 'repr') and len(t) == 3:
            x = self.ev(t[2], env)
            if isinstance(x, (Text, str)):
                return text(x) if n == 'str' else Text([('repr', x)])
            if n == 'repr' and not isinstance(x, Lab):
                raise Und('repr')
            return Text([(n, x)])
        if n == 'join' and len(t) == 4:
            sep, out = text(self.ev(t[2], env)), []
            for k, x in enumerate(self.seq(t[3], env)):
                if k:
                    out.extend(sep)
                out.extend(text(x))
            return Text(out)
        if n == 'Add' and len(t) == 4:
            a, b = self.ev(t[2], env), self.ev(t[3], env)
            if isinstance(a, (Text, str)) or isinstance(b, (Text, str)):
                return Text(list(text(a)) + list(text(b)))
        if n == 'fmt' and len(t) == 4:
            f = self.ev(t[2], env)
            xs = t[3][1:] if t[3][0] == 'tup' else [t[3]]
            parts = f.split('%s') if isinstance(f, str) else []
            if len(parts) != len(xs) + 1 or any('%' in q for q in parts):
                raise Und('format')
            out = [parts[0]]
            for q, x in zip(parts[1:], xs):
                out.extend(self.e_app(('app', 'str', x), env))
                out.append(q)
            return Text(out)
        if n == 'val' and len(t) == 3:
            return self.value(t[2], {}, env)
        return Cells.e_app(self, t, env)

    def value(self, c, at, env):
        if c[0] == 'pin':
            at = dict(at)
            for D, i in c[2]:
                S = self.seq(D, env)
                i = self.int(i, env)
                if not -len(S) <= i < len(S):
                    raise Und('range')
                at[D] = (i % len(S), S[i])
            return self.value(c[1], at, env)
        return self.cell(c, at, env)


class Convert(Check):
    id = 'C25'
    floor = 15
    rule = ('the flattened or rebuilt result, a term, is evaluated at points of the abstract domain (label lists, rows) '
            'and compared with what the elements and their labels prescribe')

    def cases(self):
        for cse in larry_cases((1, 2, 3)):
            if cse.entry.split('.')[-1] in TO:
                yield cse
        for cse in create_cases((1, 2, 3)):
            if cse.entry.split('.')[-1] in FROM:
                yield cse
        for cse in csv_cases((1, 2)):
            yield cse
        for nd in (1, 2):
            for kw in ({}, {'delimiter': '\t'}, {'delimiter': ', '}):
                yield method('tofile', nd, [sym('FILE', 'str')], kw, group='text', handle=False)
                yield method('tofile', nd, [handle], kw, group='text', handle=True)

    def visit(self, I, o, case):
        name = case.entry.split('.')[-1]
        nd = case.meta['nd']
        conds = [c for c in o.taken if c[0][0] != 'typedt' and c[0][:2] not in (('app', 'fortran'), ('app', 'contig'))]
        # any kind of element, any memory order
        if o.kind != 'return':
            for p in (self.lars(nd) if name in TO else self.rows(nd)):
                if len(p.val.get(('seq', 'ROW', 'any'), '????')) > case.meta.get('skip', 0) and \
                        seqmodel.holds(p, o.taken, True) is True:
                    return self.fail('%s refuses' % case.entry, '%r raises %s with %s; path: %s' % (
                        case, o.exc.name, dict((tstr(k), x) for k, x in p.val.items()), path_text(o)))
            return
        v = o.value
        n = und = 0
        why = 'no point of the path'
        for p in (self.lars(nd) if name in TO else self.rows(nd)):
            h = seqmodel.holds(p, conds)
            if h is None:
                why = 'conditions of the path'
            if h is not True:
                continue
            try:
                bad = getattr(self, 'see_' + ('from' if name in FROM else name))(I, v, p, nd, case)
            except Und as e:
                why = str(e)
                und += 1
                continue
            if bad:
                return self.fail('%s %s' % (case.entry, bad[0]), '%r: %s; labels %s; path: %s' % (
                    case, bad[1], dict((tstr(k), x) for k, x in p.val.items()), path_text(o)))
            n += 1
        if n >= 5 and n > und:
            self.ok(case.entry, '%r: %d points; path: %s' % (case, n, path_text(o)))
        elif n == 0 and why == 'no point of the path':
            pass
        else:
            self.unknown('%s: %s' % (case.entry, why))

    # ------------------------------------------------------------- points
    def lars(self, nd):
        rnd = random.Random('lars %d' % nd)
        for k in range(POINTS):
            val = {}
            for i in range(nd):
                m = rnd.choice((1, 1, 2, 2, 3, 3, 4)) if k % 6 else rnd.choice((0, 1, 2))
                val[('lab', 'A', i)] = [Lab(10 * i + x) for x in rnd.sample(range(6), m)]
            yield Cells(val, k)

    def rows(self, nd):
        rnd = random.Random('rows %d' % nd)
        for k in range(POINTS):
            rows = [tuple(Lab(10 * i + rnd.randrange(4)) for i in range(nd)) for _ in range(rnd.randrange(0, 7))]
            out = []
            for r in rows:
                if r not in out:
                    out.append(r)
            val = {('seq', 'val', 'any'): [V0(i) for i in range(len(out))], ('seq', 'ROW', 'any'): list(range(len(out)))}
            for i in range(nd):
                val[('seq', 'c%d' % i, 'any')] = [r[i] for r in out]
            yield Cells(val, k)

    # ------------------------------------------------------------- flattening
    def want(self, p, nd, order='C'):
        labs = [p.val[('lab', 'A', k)] for k in range(nd)]
        ks = list(range(nd))
        if order == 'F':
            ks.reverse()
        out = []
        for t in seqmodel.product([labs[k] for k in ks]):
            if order == 'F':
                t = t[::-1]
            out.append((t, ('cell', 'A') + t))
        return out

    def see_flatten(self, I, v, p, nd, case):
        x, labs = larry_at(I, v, p)
        order = 'C'
        for a in list(case.meta.get('args', ())) + list(case.meta.get('kw', {}).values()):
            if a in ('C', 'F'):
                order = a
        if len(labs) != 1:
            return 'axes', 'the result has %d axes' % len(labs)
        got = list(zip(labs[0], [c for _, c in x]))
        return differ(got, self.want(p, nd, order), len(labs[0]), len(x))

    def see_totuples(self, I, v, p, nd, case):
        rows = p.seq(seqterm(I, v), {})
        if not all(isinstance(r, tuple) and len(r) == nd + 1 for r in rows):
            return 'rows', 'rows are %s' % rows[:2]
        return differ([(tuple(r[:-1]), r[-1]) for r in rows], self.want(p, nd), 0, 0)

    def see_tocsv(self, I, v, p, nd, case):
        if len(I.textfiles) != 1:
            return 'files', '%d files are opened' % len(I.textfiles)
        f = I.textfiles[0]
        if f.open:
            return 'close', 'the file is not closed'
        return self.see_totuples(I, f.rows, p, nd, case)

    def see_tofile(self, I, v, p, nd, case):
        if len(I.textfiles) != 1:
            return 'files', '%d files are opened' % len(I.textfiles)
        f = I.textfiles[0]
        if f.open != case.meta['handle']:
            return 'close', 'the file is not closed' if f.open else 'the file of the caller is closed'
        d = case.meta['kw'].get('delimiter', ',')
        p = Texts(p.val, 0)
        labs = [p.val[('lab', 'A', k)] for k in range(nd)]
        want = []
        if nd == 2:
            want.append(d)
            for j, b in enumerate(labs[1]):
                want.extend(([d] if j else []) + [('str', b)])
            want.append('\n')
        for a in labs[0]:
            want.append(('str', a))
            for t in seqmodel.product([[a]] + labs[1:]):
                want.extend([d, ('str', ('cell', 'A') + t)])
            want.append('\n')
        got = []
        for r in p.seq(seqterm(I, f.rows), {}):
            got.extend(text(r))
        got, want = Text(got), Text(want)
        if got != want:
            return 'text', 'the text is %s, should be %s' % (list(got), list(want))

    def see_tolist(self, I, v, p, nd, case):
        _, items = I.seq_of(v) if isinstance(v, (PyList, TupleV)) else (None, None)
        if items is None:
            raise Und('result')
        if len(items) != 2:
            return 'shape', 'the result is not a list of values and a list of labels'
        xs, ls = p.seq(seqterm(I, items[0]), {}), p.seq(seqterm(I, items[1]), {})
        return differ(list(zip(ls, xs)), self.want(p, nd), len(ls), len(xs))

    def see_todict(self, I, v, p, nd, case):
        if not isinstance(v, PyDict):
            raise Und('result')
        if v.entries is not None or not v.term or v.term[0] != 'dcomp':
            raise Und('result')
        _, b, k, x, q = v.term
        rows = p.ev(('comp', b, ('tup', k, x), q), {})
        got = {}
        for r in rows:
            got[r[0]] = r[1]
        want = dict(self.want(p, nd))
        if got != want:
            return 'items', 'the result is %s, should be %s' % (got, want)

    # ------------------------------------------------------------- rebuilding
    def see_from(self, I, v, p, nd, case):
        rows = list(zip(*[p.val[('seq', 'c%d' % k, 'any')] for k in range(nd)]))
        rows = list(enumerate(rows))[case.meta.get('skip', 0):]
        if any(f.open for f in I.textfiles):
            return 'close', 'the file is not closed'
        if not rows:
            if isinstance(v, Inst):
                x, labs = larry_at(I, v, p)
                if x:
                    return 'cells', 'no row, but cells %s' % x
            return
        x, labs = larry_at(I, v, p)
        if len(labs) != nd:
            return 'axes', 'the result has %d axes' % len(labs)
        for k in range(nd):
            if sorted(labs[k]) != sorted(set(r[k] for _, r in rows)):
                return 'labels', 'labels along axis %d are %s' % (k, labs[k])
        where = dict((r, p.val[('seq', 'val', 'any')][i]) for i, r in rows)
        names = seqmodel.product(labs)
        if len(names) != len(x):
            return 'shape', '%d cells for %d tuples of labels' % (len(x), len(names))
        for nm, (_, c) in zip(names, x):
            w = where.get(nm, MISSING)
            if c is not w:
                return 'cells', 'cell %s is %s, should be %s' % (nm, c, w)


def seqterm(I, v):
    if isinstance(v, (Unk, Sym)):
        raise Und('result')
    t = I.seqterm_of(v)
    if t is None:
        raise Und('result')
    return I.facts.norm(t)


def larry_at(I, v, p):
    """([(coordinates, cell)], [labels per axis]) of a larry at a point"""
    if not isinstance(v, Inst) or not isinstance(v.attrs.get('x'), Arr):
        raise Und('result')
    a = v.attrs['x']
    labs = v.attrs.get('label')
    _, items = I.seq_of(labs) if isinstance(labs, (PyList, TupleV)) else (None, None)
    if items is None:
        raise Und('labels')
    labs = [p.seq(seqterm(I, l), {}) for l in items]
    dims = [I.facts.norm(d) for d in a.dims]
    content = a.buf.content
    x = [(c, p.cell(content, c, {})) for c in p.coords(dims, {})]
    return x, labs


def differ(got, want, n, m):
    if n != m:
        return 'length', '%d labels and %d elements' % (n, m)
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), None)
        if i is None:
            return 'length', '%d elements, should be %d' % (len(got), len(want))
        return 'elements', 'element %d is %s, should be %s' % (i, got[i], want[i])


CHECKS = [Convert]
