"""Are two label (or position) sequences the same?  Normal forms of sequence
terms and of the predicates that select elements."""
import itertools
from . import terms as T
from .terms import K, TRUE, FALSE, NONE
from . import cells
from .cells import nf, BOOLEAN

# ------------------------------------------------------------------ predicates
ORDER = {'less': '<', 'less_equal': '<=', 'equal': '==', 'not_equal': '!=', 'greater': '>', 'greater_equal': '>='}
STATES = {'<': ('lt',), '<=': ('lt', 'eq'), '==': ('eq',), '!=': ('lt', 'gt', 'un'), '>': ('gt',), '>=': ('gt', 'eq')}
FLIP = {'lt': 'gt', 'gt': 'lt', 'eq': 'eq', 'un': 'un'}


def cmp_(op, a, b, cells):
    """comparison as (variable, states in which it holds)"""
    s = STATES[op]
    if repr(b) < repr(a):
        a, b = b, a
        s = tuple(FLIP[x] for x in s)
    return ('cmp', (a, b, cells), frozenset(s))


def parse(p):
    """label predicate -> expression over comparisons and atoms"""
    if p == TRUE:
        return ('const', True)
    if p == FALSE:
        return ('const', False)
    h = p[0]
    if h == 'not':
        return ('not', parse(p[1]))
    if h in ('and', 'or'):
        return (h, [parse(x) for x in p[1]])
    if h == 'eq':
        return cmp_('==', p[1], p[2], False)
    if h == 'lt':
        return cmp_('<', p[1], p[2], False)
    if h == 'le':
        return cmp_('<=', p[1], p[2], False)
    if h == 'app' and p[1] in STATES and len(p) == 4:
        return cmp_(p[1], p[2], p[3], False)
    if h == 'at' and p[1][0] == 'vals':
        return cell(nf(p[1][1]), (p[1][2], p[2]))
    if h == 'truthy' and p[1][0] == 'at' and p[1][1][0] == 'vals':
        return cell(nf(p[1][1][1]), (p[1][1][2], p[1][2]))
    return ('atom', p)


def cell(c, where):
    """truth of a cell of boolean content c at one position"""
    if c[0] == 'kc' and T.isk(c[1]) and c[1][1] in ('bool', 'int'):
        return ('const', bool(c[1][2]))
    if c[0] == 'red' and c[1] == 'all' and c[4:] in ((), ((),)):
        return ('not', cell(nf(('red', 'any', ('ew', 'logical_not', (c[2],)), c[3], ())), where))
    if c[0] == 'red' and c[1] == 'any' and c[2][0] == 'kc' and T.isk(c[2][1]):
        return ('const', bool(c[2][1][2]))
    if c[0] == 'ew':
        n, a = c[1], c[2]
        if n in ORDER:
            return cmp_(ORDER[n], a[0], a[1], True)
        if n == 'logical_not':
            return ('not', cell(a[0], where))
        if n == 'logical_and':
            return ('and', [cell(x, where) for x in a])
        if n == 'logical_or':
            return ('or', [cell(x, where) for x in a])
    return ('atom', ('cell', c))


def variables(e, acc):
    if e[0] == 'cmp':
        acc[e[1]] = ('lt', 'eq', 'gt', 'un') if e[1][2] else ('lt', 'eq', 'gt')
    elif e[0] == 'atom':
        acc[e[1]] = (True, False)
    elif e[0] == 'not':
        variables(e[1], acc)
    elif e[0] in ('and', 'or'):
        for x in e[1]:
            variables(x, acc)
    return acc


def value(e, env):
    h = e[0]
    if h == 'const':
        return e[1]
    if h == 'cmp':
        return env[e[1]] in e[2]
    if h == 'atom':
        return env[e[1]]
    if h == 'not':
        return not value(e[1], env)
    if h == 'and':
        return all(value(x, env) for x in e[1])
    return any(value(x, env) for x in e[1])


def same_predicate(p, q):
    """True / False / None"""
    a, b = parse(p), parse(q)
    va, vb = variables(a, {}), variables(b, {})
    vs = dict(va)
    vs.update(vb)
    if len(vs) > 6:
        return None
    names = sorted(vs, key=repr)
    for vals in itertools.product(*[vs[n] for n in names]):
        env = dict(zip(names, vals))
        if value(a, env) != value(b, env):
            # different for certain only if both talk about the same things
            if set(va) == set(vb) or not va or not vb or all(plain(n) for n in names):
                return False
            return None
    return True


def plain(n):
    """variable with an evident meaning: membership or comparison of a label"""
    if len(n) == 3 and n[2] is False:
        return understood(n[0]) and understood(n[1])
    if n and n[0] == 'cell':
        return cells.understood(n[1])
    if len(n) == 3 and n[2] is True:
        return cells.understood(n[0]) and cells.understood(n[1])
    return bool(n) and n[0] == 'in' and understood(n)


# ------------------------------------------------------------------ sequences
VOCAB = {'lab', 'slc', 'comp', 'srt', 'lst', 'seq', 'at', 'pos', 'j', 'k', 'sym', 'poly', 'len', 'set', 'union',
         'inter', 'diff', 'tup', 'in', 'eq', 'not', 'and', 'or', 'lt', 'le', 'perm', 'argsort', 'vals', 'pin', 'X',
         'one', 'flat', 'ite', 'free', 'cat'}


def understood(t):
    if not isinstance(t, tuple) or not t:
        return True
    if T.isk(t):
        return True
    if isinstance(t[0], str):
        if t[0] == 'app':
            if not (t[1].startswith('user:') or t[1] in STATES):
                return False
        elif t[0] == 'X':
            return True
        elif t[0] not in VOCAB:
            return False
    return all(understood(x) for x in t)


def asc(S):
    """S as a comprehension [S[j] for j < len(S)]"""
    if S[0] == 'comp':
        return S
    j = T.fresh_j()
    return ('comp', ((j, T.length(S)),), ('at', S, ('j', j)), TRUE)


def loosen(I, S):
    """slices as comprehensions; a comprehension over a negative range is empty"""
    S = I.facts.norm(S)
    q = I.facts.query
    if S[0] == 'slc' and S[4] in (NONE, K(1)):
        base = loosen(I, S[1])
        n = T.length(base)
        a, b = S[2], S[3]
        lo = hi = None
        exact = True                # no clipping needed
        if a == NONE:
            lo = K(0)
        elif q(T.le(K(0), a)):
            lo = a
            exact = bool(q(T.le(a, n)))
        elif q(T.lt(a, K(0))):
            lo = T.padd(n, a)
            if not q(T.le(K(0), lo)):
                lo = None
        if b == NONE:
            hi = n
        elif q(T.lt(b, K(0))):
            hi = T.padd(n, b)
            if not q(T.le(K(0), hi)) and not (lo == K(0)):
                hi = None
        elif q(T.le(K(0), b)):
            hi = b if q(T.le(b, n)) else None
        if lo is None or hi is None:
            return ('slc', base) + S[2:]
        m = T.psub(hi, lo)
        if q(T.le(m, K(0))):
            return ('lst',)
        j = T.fresh_j()
        return I.facts.norm(T.comp(((j, m),), T.at(base, T.padd(('j', j), lo)), TRUE))
    if S[0] == 'comp' and len(S[1]) == 1 and S[3] == TRUE and q(T.le(S[1][0][1], K(0))):
        return ('lst',)
    if S[0] in ('srt', 'perm') or S[0] == 'slc' and S[4] == K(-1):
        # nothing to reorder
        inner = S[1][1] if S[1][0] == 'set' else S[1]
        if inner[0] in ('lab', 'seq', 'comp', 'slc', 'lst') and q(T.le(T.length(inner), K(1))):
            return loosen(I, inner)
    if S[0] == 'lst' and len(S) > 1:
        return S
    return S


def same(I, a, b):
    """are two sequences equal on this path?  True / False / None"""
    r = same_form(I, a, b)
    if r is False:
        from . import seqmodel
        if seqmodel.compare(I, [(I.facts.norm(a), I.facts.norm(b))])[0] == 'same':
            return None
    return r


def same_form(I, a, b):
    if a is None or b is None:
        return None
    q = I.facts.query
    a, b = I.facts.norm(a), I.facts.norm(b)
    if a == b or q(T.eq(a, b)) is True:
        return True
    x, y = loosen(I, a), loosen(I, b)
    if x == y or q(T.eq(x, y)) is True:
        return True
    if q(T.eq(T.length(x), K(0))) is True and q(T.eq(T.length(y), K(0))) is True:
        return True
    for u, v in ((x, y), (y, x)):
        if u[0] == 'lst' and len(u) == 2 and q(T.eq(T.length(v), K(1))) is True:
            w = I.facts.norm(T.at(v, K(0)))
            if w == u[1] or q(T.eq(w, u[1])) is True:
                return True
    if not understood(x) or not understood(y):
        f = filters(I, x, y)
        return f
    f = filters(I, x, y)
    if f is not None:
        return f
    if a[0] == 'slc' and b[0] == 'slc' and a[1] == b[1] and a[4] == b[4] and a[4] in (NONE, K(1), K(-1)):
        # same slice but for one end that is a fixed number of places off
        for i, j in ((2, 3), (3, 2)):
            if a[j] == b[j]:
                u, v = [K(0) if i == 2 and z == NONE else z for z in (a[i], b[i])]
                if NONE not in (u, v) and T.isint(T.psub(u, v)) and \
                        (T.isint(u) and T.isint(v) and u[2] >= 0 and v[2] >= 0 or not T.isint(u) and not T.isint(v)):
                    return False
    if 'slc' in (a[0], b[0]) and slice_gap(I, a, b):
        return False
    if 'slc' in (x[0], y[0]) and x[0] != y[0] and 'lab' not in (x[0], y[0]):
        return None
    if 'ite' in (x[0], y[0]) or T.contains(x, lambda t: t and t[0] == 'ite') or \
            T.contains(y, lambda t: t and t[0] == 'ite'):
        return None
    return False


def filters(I, x, y):
    """compare two selections from the same base"""
    cx, cy = asc(x), asc(y)
    if len(cx[1]) != 1 or len(cy[1]) != 1 or (cx[3] == TRUE and cy[3] == TRUE):
        return None
    (jx, nx), (jy, ny) = cx[1][0], cy[1][0]
    if nx != ny:
        return None
    fx, px = cx[2], cx[3]
    fy, py = T.subst_j(cy[2], {jy: ('j', jx)}), T.subst_j(cy[3], {jy: ('j', jx)})
    if fx != fy:
        return None
    return same_predicate(px, py)


def same_scalar(I, a, b):
    if a is None or b is None:
        return None
    a, b = I.facts.norm(a), I.facts.norm(b)
    if a == b or I.facts.query(T.eq(a, b)) is True:
        return True
    for u, v in ((a, b), (b, a)):
        # S[i] and S[i + len(S)]
        if u[0] == 'at' and v[0] == 'at' and u[1] == v[1] and T.padd(u[2], T.length(u[1])) == v[2]:
            return True
    if not understood(a) or not understood(b) or T.contains((a, b), lambda t: t and t[0] == 'ite'):
        return None
    return False


# ------------------------------------------------------------------ slices of one list
class Undecided(Exception):
    pass


def int_value(t, env):
    if t in env:
        return env[t]
    if T.isint(t):
        return t[2]
    s = 0
    for m, c in T.topoly(t).items():
        v = c
        for a in m:
            if a not in env:
                raise Undecided()
            v = v * env[a]
        s += v
    return s


def int_cond(t, env):
    h = t[0]
    if t == TRUE or t == FALSE:
        return t == TRUE
    if h == 'not':
        return not int_cond(t[1], env)
    if h in ('and', 'or'):
        vs = [int_cond(x, env) for x in t[1]]
        return all(vs) if h == 'and' else any(vs)
    if h in ('lt', 'le', 'eq'):
        u, v = int_value(t[1], env), int_value(t[2], env)
        return u < v if h == 'lt' else u <= v if h == 'le' else u == v
    raise Undecided()


def int_atoms(t, out):
    if t == NONE or T.isk(t):
        return out
    for m in T.topoly(t):
        for a in m:
            if a[0] == 'len' and a[1][0] == 'lab' or a[0] == 'sym' and a[2] == 'int':
                out.add(a)
            else:
                raise Undecided()
    return out


def mentions(t, atoms):
    return T.contains(t, lambda x: x in atoms)


def slice_gap(I, a, b):
    """True if the slice terms a and b of one list select other positions for some small length and bounds that
    satisfies all integer conditions of the path (all conditions that mention these quantities must be linear)"""
    try:
        base = {x[1] if x[0] == 'slc' else x for x in (a, b)}
        if len(base) != 1 or list(base)[0][0] != 'lab':
            return False
        n = ('len', list(base)[0])
        atoms = {n}
        for x in (a, b):
            if x[0] == 'slc':
                if x[4] not in (NONE, K(1), K(-1)):
                    return False
                int_atoms(x[2], atoms)
                int_atoms(x[3], atoms)
        conds = [(t, v) for t, v in I.taken if mentions(t, atoms)]
        keys = []
        for l in I.facts.layers:
            for key, bd in l.bounds.items():
                here = {x for m, c in key for x in m}
                if here & atoms:
                    if not here <= atoms:
                        return False
                    keys.append((key, bd))
        order = sorted(atoms, key=repr)
        if len(order) > 3:
            return False

        def cut(x, k):
            if x[0] != 'slc':
                return list(range(k))
            e = [None if y == NONE else int_value(y, env) for y in x[2:4]]
            return list(range(k))[slice(e[0], e[1], -1 if x[4] == K(-1) else None)]

        for vals in itertools.product(*[range(0, 6) if x[0] == 'len' else range(-4, 5) for x in order]):
            env = dict(zip(order, vals))
            ok = True
            for key, (lo, hi) in keys:
                s = 0
                for m, c in key:
                    v = c
                    for x in m:
                        v = v * env[x]
                    s += v
                if lo is not None and s < lo or hi is not None and s > hi:
                    ok = False
                    break
            if ok and all(int_cond(t, env) == v for t, v in conds) and cut(a, env[n]) != cut(b, env[n]):
                return True
    except Undecided:
        pass
    return False
