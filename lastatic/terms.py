"""Herbrand terms used as abstract values by the analyser (value numbering).

Everything is a nested tuple.  The head string says what it is:

scalars    ('k', type, v) constant, ('sym', name) input scalar, ('j', n) bound
           loop position, ('poly', ((mono, coef), ...)) integer polynomial,
           ('len', S), ('at', S, i), ('pos', S, x), ('ite', c, a, b),
           ('app', op, ...)
sequences  ('lab', who, k) the label list along axis k of input larry `who`,
           ('seq', name), ('lst', ...), ('cat', ...), ('slc', S, a, b, c),
           ('comp', ((j, n), ...), f, p), ('srt', set, rev), ('slist', set),
           ('perm', S, id), ('vals', content, dim), ('opq', id)
sets       ('set', S), ('union', ...), ('inter', ...), ('diff', a, b)
"""

TRUE = ('k', 'bool', True)
FALSE = ('k', 'bool', False)
NONE = ('k', 'NoneType', None)


def K(v):
    if isinstance(v, float) and v != v:
        return ('k', 'float', 'nan')
    return ('k', type(v).__name__, v)


def isk(t):
    return isinstance(t, tuple) and len(t) == 3 and t[0] == 'k'


def kval(t):
    if t[1] == 'float' and t[2] == 'nan':
        return float('nan')
    return t[2]


def isint(t):
    return isk(t) and t[1] == 'int'


# ------------------------------------------------------------------ polynomials

def _tkey(t):
    return repr(t)


def topoly(t):
    """dict mono->coef; mono is a sorted tuple of atoms."""
    if isk(t) and t[1] in ('int', 'bool', 'float') and t[2] != 'nan':
        v = t[2]
        return {(): v} if v else {}
    if t[0] == 'poly':
        return dict(t[1])
    return {(t,): 1}


def frompoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return K(0)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return K(c)
        if len(m) == 1 and c == 1:
            return m[0]
    return ('poly', tuple(sorted(d.items(), key=lambda mc: repr(mc[0]))))


def padd(a, b, s=1):
    d = topoly(a)
    for m, c in topoly(b).items():
        d[m] = d.get(m, 0) + s * c
    return frompoly(d)


def psub(a, b):
    return padd(a, b, -1)


def pmul(a, b):
    d = {}
    for m1, c1 in topoly(a).items():
        for m2, c2 in topoly(b).items():
            m = tuple(sorted(m1 + m2, key=repr))
            d[m] = d.get(m, 0) + c1 * c2
    return frompoly(d)


# ------------------------------------------------------------------ traversal

def walk(t):
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            yield x
            stack.extend(x)


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def free_j(t, acc=None, bound=frozenset()):
    if acc is None:
        acc = set()
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'j':
            if t[1] not in bound:
                acc.add(t[1])
        elif t and t[0] == 'comp':
            b = bound
            for j, n in t[1]:
                free_j(n, acc, b)
                b = b | {j}
            free_j(t[2], acc, b)
            free_j(t[3], acc, b)
        else:
            for x in t:
                if isinstance(x, tuple):
                    free_j(x, acc, bound)
    return acc


def subst_j(t, m):
    """Substitute bound positions; m: id -> term.  Rebuilds with constructors."""
    if not isinstance(t, tuple):
        return t
    if not t or not m:
        return t
    if len(t) == 2 and t[0] == 'j' and t[1] in m:
        return m[t[1]]
    if t[0] == 'comp' and any(j in m for j, _ in t[1]):
        m = {k: v for k, v in m.items() if k not in [j for j, _ in t[1]]}
        if not m:
            return t
    new = tuple(subst_j(x, m) for x in t)
    if new == t:
        return t
    return rebuild(new)


_counter = [0]


def fresh():
    _counter[0] += 1
    return _counter[0]


# ------------------------------------------------------------------ constructors

def rebuild(t):
    """Re-normalise the top constructor of t."""
    h = t[0] if t else None
    if h == 'poly':
        d = K(0)
        for mono, c in t[1]:
            p = K(c)
            for a in mono:
                p = pmul(p, a)
            d = padd(d, p)
        return d
    if h == 'at':
        return at(t[1], t[2])
    if h == 'pos':
        return pos(t[1], t[2]) if len(t) == 3 else t
    if h == 'len':
        return length(t[1])
    if h == 'comp':
        return comp(t[1], t[2], t[3])
    if h == 'slc' and len(t) == 5:
        return slc(t[1], t[2], t[3], t[4])
    if h == 'set':
        return mkset(t[1])
    if h == 'union':
        return union(*t[1])
    if h == 'inter':
        return inter(*t[1])
    if h == 'ite':
        return ite(t[1], t[2], t[3])
    if h == 'not':
        return neg(t[1])
    if h == 'and':
        return conj(t[1])
    if h == 'or':
        return disj(t[1])
    if h == 'eq':
        return eq(t[1], t[2])
    if h == 'le':
        return le(t[1], t[2])
    if h == 'lt':
        return lt(t[1], t[2])
    if h == 'cat':
        return cat(*t[1:])
    if h == 'in':
        return member(t[1], t[2])
    if h == 'srt':
        return srt(t[1], t[2])
    return t


def at(S, i):
    if S[0] == 'lst' and isint(i):
        n = len(S) - 1
        k = i[2]
        if -n <= k < n:
            return S[1 + (k % n)]
    if S[0] == 'comp' and len(S[1]) == 1 and S[3] == TRUE:
        (j, n), = S[1]
        if not (isint(i) and i[2] < 0):
            return subst_j(S[2], {j: i})
    if i[0] == 'pos' and i[1] == S:
        return i[2]
    if i[0] == 'ite':
        return ite(i[1], at(S, i[2]), at(S, i[3]))
    return ('at', S, i)


def pos(S, x):
    if x[0] == 'at' and x[1] == S and UNIQ(S):
        return x[2]
    return ('pos', S, x)


# hook: is sequence S known to be free of duplicates?  set by facts.
UNIQ = lambda S: S[0] == 'lab'


def ite(c, a, b):
    if c == TRUE or a == b:
        return a
    if c == FALSE:
        return b
    if c[0] == 'not':
        return ite(c[1], b, a)
    return ('ite', c, a, b)


def neg(c):
    if c == TRUE:
        return FALSE
    if c == FALSE:
        return TRUE
    if c[0] == 'not':
        return c[1]
    if c[0] == 'lt':
        return le(c[2], c[1])
    if c[0] == 'le':
        return lt(c[2], c[1])
    return ('not', c)


def conj(cs):
    out = set()
    for c in cs:
        if c == TRUE:
            continue
        if c == FALSE:
            return FALSE
        if c[0] == 'and':
            out.update(c[1])
        else:
            out.add(c)
    for c in out:
        if neg(c) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out))
    return ('and', tuple(sorted(out, key=repr)))


def disj(cs):
    """Disjunction with one level of resolution (a&c | a&~c = a)."""
    sets = []
    for c in cs:
        if c == TRUE:
            return TRUE
        if c == FALSE:
            continue
        if c[0] == 'or':
            for d in c[1]:
                sets.append(frozenset(d[1]) if d[0] == 'and' else frozenset([d]))
        else:
            sets.append(frozenset(c[1]) if c[0] == 'and' else frozenset([c]))
    sets = list(set(sets))
    changed = True
    while changed:
        changed = False
        for a in range(len(sets)):
            for b in range(len(sets)):
                if a == b:
                    continue
                A, B = sets[a], sets[b]
                if A <= B:
                    sets.pop(b)
                    changed = True
                    break
                # resolution: A = R+{c}, B >= R+{not c}  ->  B - {not c}
                for c in A:
                    n = neg(c)
                    if n in B and (A - {c}) <= (B - {n}):
                        sets[b] = B - {n}
                        changed = True
                        break
                if changed:
                    break
            if changed:
                break
    if not sets:
        return FALSE
    if frozenset() in sets:
        return TRUE
    ts = [conj(s) for s in sets]
    if len(ts) == 1:
        return ts[0]
    return ('or', tuple(sorted(ts, key=repr)))


def eq(a, b):
    if a == b:
        if contains(a, lambda x: x == ('k', 'float', 'nan')):
            return ('eq', a, b)
        return TRUE
    if isk(a) and isk(b):
        va, vb = kval(a), kval(b)
        try:
            return K(bool(va == vb))
        except Exception:
            pass
    if a[0] in ('tup', 'lst') and b[0] == a[0]:
        if len(a) != len(b):
            return FALSE
        return conj([eq(x, y) for x, y in zip(a[1:], b[1:])])
    if repr(b) < repr(a):
        a, b = b, a
    return ('eq', a, b)


def le(a, b):
    d = psub(a, b)
    if isk(d) and d[2] != 'nan':
        return K(d[2] <= 0)
    return ('le', a, b)


def lt(a, b):
    d = psub(a, b)
    if isk(d) and d[2] != 'nan':
        return K(d[2] < 0)
    return ('lt', a, b)


def member(x, S):
    if S[0] in ('lst',):
        return disj([eq(x, y) for y in S[1:]])
    S = mkset(S)
    if x[0] == 'at':
        X = mkset(x[1])
        if subset(X, S):
            return TRUE
        if disjoint(X, S):
            return FALSE
    if x[0] == 'app' and x[1] in ('max', 'min') and len(x) == 3 and subset(mkset(x[2]), S):
        return TRUE
    if x[0] == 'ite':
        return ite_bool(x[1], member(x[2], S), member(x[3], S))
    if S[0] == 'union':
        return disj([member(x, s) for s in S[1]])
    if S[0] == 'inter':
        return conj([member(x, s) for s in S[1]])
    if S[0] == 'diff':
        return conj([member(x, S[1]), neg(member(x, S[2]))])
    return ('in', x, S)


def ite_bool(c, a, b):
    return disj([conj([c, a]), conj([neg(c), b])])


def subset(A, B):
    """certainly A <= B (sets)"""
    if A == B or A == ('union', ()):
        return True
    if B[0] == 'inter':
        return all(subset(A, b) for b in B[1])
    if A[0] == 'union':
        return all(subset(a, B) for a in A[1])
    if B[0] == 'union' and any(subset(A, b) for b in B[1]):
        return True
    if A[0] == 'inter' and any(subset(a, B) for a in A[1]):
        return True
    if A[0] == 'diff' and subset(A[1], B):
        return True
    if A[0] == 'set':
        S = A[1]
        if S[0] in ('slc', 'perm'):
            return subset(mkset(S[1]), B)
        if S[0] == 'cat':
            return all(subset(mkset(x), B) for x in S[1:])
        if S[0] == 'lst' and B[0] == 'set' and B[1][0] == 'lst':
            return all(x in B[1][1:] for x in S[1:])
        if S[0] == 'lst':
            return all(x[0] == 'at' and subset(mkset(x[1]), B) for x in S[1:])
        if S[0] == 'comp' and S[2][0] == 'at' and not any(
                j in free_j(S[2][1]) for j, _ in S[1]):
            return subset(mkset(S[2][1]), B)
    return False


def disjoint(A, B):
    """certainly no common element"""
    if A == ('union', ()) or B == ('union', ()):
        return True
    if A[0] == 'diff':
        if subset(B, A[2]) or disjoint(A[1], B):
            return True
    if B[0] == 'diff':
        if subset(A, B[2]) or disjoint(A, B[1]):
            return True
    for X, Y in ((A, B), (B, A)):
        if X[0] == 'union' and all(disjoint(x, Y) for x in X[1]):
            return True
        if X[0] == 'inter' and any(disjoint(x, Y) for x in X[1]):
            return True
    return False


def is_set(t):
    return t[0] in ('set', 'union', 'inter', 'diff', 'oset')


def mkset(S):
    """set of the elements of sequence (or set) S"""
    if is_set(S):
        if S[0] == 'set':
            S = S[1]
        else:
            return S
    h = S[0]
    if h in ('srt', 'slist'):
        return S[1]
    if h == 'firsts':
        return mkset(S[1])
    if h == 'perm':
        return mkset(S[1])
    if h == 'slc' and S[2:] == (NONE, NONE, K(-1)):
        return mkset(S[1])
    if h == 'cat':
        return union(*[mkset(x) for x in S[1:]])
    if h == 'lst' and len(S) == 1:
        return ('union', ())
    if h == 'comp' and len(S[1]) == 1:
        # [x for x in L if x in M]  ->  L & M ;  ... not in -> L - M
        (j, n), = S[1]
        f, p = S[2], S[3]
        if f[0] == 'at' and f[2] == ('j', j) and n == length(f[1]):
            if p == TRUE:
                return mkset(f[1])
            if p[0] == 'in' and p[1] == f:
                return inter(mkset(f[1]), p[2])
            if p[0] == 'not' and p[1][0] == 'in' and p[1][1] == f:
                return ('diff', mkset(f[1]), p[1][2])
    return ('set', S)


def union(*sets):
    out = set()
    for s in sets:
        s = mkset(s)
        if s[0] == 'union':
            out.update(s[1])
        else:
            out.add(s)
    # absorption: A | (A & B) = A
    for s in list(out):
        if s[0] == 'inter' and any(x in out for x in s[1]):
            out.discard(s)
        elif s[0] == 'diff' and s[1] in out:
            out.discard(s)
    for s in list(out):
        if s[0] == 'diff' and s[2] in out:        # (A-B) | B = A | B
            out.discard(s)
            u = union(s[1], *out)
            return u
    if len(out) == 1:
        return next(iter(out))
    return ('union', tuple(sorted(out, key=repr)))


def inter(*sets):
    out = set()
    for s in sets:
        s = mkset(s)
        if s[0] == 'inter':
            out.update(s[1])
        else:
            out.add(s)
    for s in list(out):
        if s[0] == 'union' and any(x in out for x in s[1]):
            out.discard(s)
    if len(out) == 1:
        return next(iter(out))
    return ('inter', tuple(sorted(out, key=repr)))


def srt(S, rev):
    if rev is False or rev is True:
        rev = TRUE if rev else FALSE
    """sorted(S): S a set term or a sequence term"""
    if not is_set(S):
        if UNIQ(S):
            S = mkset(S)
        elif S[0] == 'perm' or (S[0] == 'srt'):
            return srt(S[1], rev)
    return ('srt', S, rev)


def cat(*ss):
    out = []
    for s in ss:
        if s[0] == 'cat':
            out.extend(s[1:])
        elif s == ('lst',):
            continue
        elif s[0] == 'lst' and out and out[-1][0] == 'lst':
            out[-1] = out[-1] + s[1:]
        else:
            out.append(s)
    if not out:
        return ('lst',)
    if len(out) == 1:
        return out[0]
    # S[:k] + S[k:] = S
    for i in range(len(out) - 1):
        a, b = out[i], out[i + 1]
        if a[0] == 'slc' and b[0] == 'slc' and a[1] == b[1] and \
                a[4] == NONE and b[4] == NONE and a[3] == b[2] and a[3] != NONE:
            m = slc(a[1], a[2], b[3], NONE)
            return cat(*(out[:i] + [m] + out[i + 2:]))
    return ('cat',) + tuple(out)


def slc(S, a, b, c):
    if c == K(1):
        c = NONE
    if c == NONE and a == K(0):
        a = NONE
    if c == NONE and b == length(S):
        b = NONE
    if a == NONE and b == NONE and c == NONE:
        return S
    if c == K(-1) and a == NONE and b == NONE:
        if S[0] == 'slc' and S[2:] == (NONE, NONE, K(-1)):
            return S[1]
        if S[0] == 'srt':
            return ('srt', S[1], neg(S[2]))
        if S[0] == 'comp' and S[3] == TRUE and len(S[1]) == 1:
            # reversing positions of a plain map keeps the map
            (j, n), = S[1]
            base, idx = _single_at(S[2], j)
            if base is not None:
                rb = slc(base, NONE, NONE, K(-1))
                return comp(S[1], idx(rb), TRUE)
    if S[0] == 'lst' and all(isint(x) or x == NONE for x in (a, b, c)):
        return ('lst',) + S[1:][slice(a[2], b[2], c[2])]
    return ('slc', S, a, b, c)


def _single_at(f, j):
    """If position j occurs in f only as at(B, j) for one B, return B and a
    function rebuilding f with another base."""
    bases = set()
    bad = []

    def scan(t):
        if not isinstance(t, tuple):
            return
        if len(t) == 3 and t[0] == 'at' and t[2] == ('j', j) and j not in free_j(t[1]):
            bases.add(t[1])
            return
        if t == ('j', j):
            bad.append(1)
            return
        for x in t:
            scan(x)
    scan(f)
    if bad or len(bases) != 1:
        return None, None
    B = next(iter(bases))

    def re(newB):
        def go(t):
            if not isinstance(t, tuple):
                return t
            if t == ('at', B, ('j', j)):
                return at(newB, ('j', j))
            return tuple(go(x) for x in t)
        return go(f)
    return B, re


def comp(bases, f, p):
    if p == FALSE:
        return ('lst',)
    if len(bases) == 1:
        (j, n), = bases
        if p == TRUE and f[0] == 'at' and f[2] == ('j', j) and \
                j not in free_j(f[1]) and n == length(f[1]):
            return f[1]
        if p == TRUE and f[0] == 'at' and f[2][0] == 'at' and f[2][2] == ('j', j) and f[2][1][0] == 'slc' and \
                is_rng(f[2][1][1]) and j not in free_j(f[1]) and j not in free_j(f[2][1]) and n == length(f[2][1]) and \
                f[2][1][1][1][0][1] == length(f[1]):
            return slc(f[1], *f[2][1][2:])
        if f[0] == 'at' and f[2] == ('j', j) and p != TRUE and f[1][0] == 'lst' and len(f[1]) == 1:
            return ('lst',)
        if p == TRUE and isint(n) and n[2] <= 0:
            return ('lst',)
    # alpha normalise: bound ids numbered from the nesting level
    lvl = _level(f, p, [n for _, n in bases])
    m = {}
    nb = []
    for k, (j, n) in enumerate(bases):
        nb.append((-(lvl + k + 1), subst_j(n, m)))
        m[j] = ('j', -(lvl + k + 1))
    if all(j == nj for (j, _), (nj, _) in zip(bases, nb)):
        return ('comp', tuple(bases), f, p)
    return ('comp', tuple(nb), subst_j(f, m), subst_j(p, m))


def _level(*ts):
    """1 + deepest canonical binder used inside ts"""
    best = 0
    for t in ts:
        for x in walk(t):
            if x and x[0] == 'comp':
                for j, _ in x[1]:
                    if isinstance(j, int) and j < 0:
                        best = max(best, -j)
    return best


def rng(n):
    j = fresh_j()
    return comp(((j, n),), ('j', j), TRUE)


def fresh_j():
    return fresh()


def is_rng(S):
    return S[0] == 'comp' and len(S[1]) == 1 and S[3] == TRUE and S[2] == ('j', S[1][0][0])


def gather(S, I):
    """[S[i] for i in I]"""
    if I[0] == 'slc' and is_rng(I[1]):
        n = I[1][1][0][1]
        if n == length(S):
            return slc(S, I[2], I[3], I[4])
    if I[0] == 'slc':
        return slc(gather(S, I[1]), I[2], I[3], I[4])
    if I[0] == 'lst':
        return ('lst',) + tuple(at(S, i) for i in I[1:])
    if I[0] == 'comp':
        b, f, p = opencomp(I)
        return comp(b, at(S, f), p)
    if I[0] == 'cat':
        return cat(*[gather(S, x) for x in I[1:]])
    j = fresh_j()
    return comp(((j, length(I)),), at(S, at(I, ('j', j))), TRUE)


def opencomp(c):
    """bases, f, p of a comp term with fresh bound positions"""
    m = {}
    nb = []
    for j, n in c[1]:
        k = fresh_j()
        nb.append((k, subst_j(n, m)))
        m[j] = ('j', k)
    return tuple(nb), subst_j(c[2], m), subst_j(c[3], m)


def where(maskseq):
    """positions of the true elements of a sequence of booleans"""
    j = fresh_j()
    return comp(((j, length(maskseq)),), ('j', j), at(maskseq, ('j', j)))


def length(S):
    if S is None:
        return ('len', ('opq', fresh()))
    h = S[0]
    if h == 'lst':
        return K(len(S) - 1)
    if h == 'comp' and S[3] == TRUE:
        n = K(1)
        for _, m in S[1]:
            n = pmul(n, m)
        return n
    if h == 'cat':
        n = K(0)
        for x in S[1:]:
            n = padd(n, length(x))
        return n
    if h == 'perm':
        return length(S[1])
    if h == 'slc' and S[2:] == (NONE, NONE, K(-1)):
        return length(S[1])
    if h == 'slc' and S[1][0] == 'comp' and S[1][3] == TRUE:
        # the length of a slice depends only on the length of what is sliced
        n = length(S[1])
        if n[0] == 'len' and n[1][0] != 'opq':
            return length(('slc', n[1]) + tuple(S[2:]))
    if h in ('srt', 'slist'):
        return length(S[1])
    if h == 'firsts':
        return length(mkset(S[1]))
    if h == 'set' and S[1][0] == 'lst':
        try:
            d = list(dict((x[2] if isk(x) else x, x) for x in S[1][1:]).values())
            if all(isk(x) for x in d) or len(d) == 1 or all(x[0] == 'nat' for x in d):
                return K(len(d))
            S = ('set', ('lst',) + tuple(d))
        except TypeError:
            pass
    if h == 'set' and S[1][0] == 'comp' and S[1][3] == TRUE and isint(length(S[1])) and length(S[1])[2] > 0 and \
            not contains(S[1][2], lambda t: t and t[0] == 'j'):
        return K(1)
    if h == 'set' and UNIQ(S[1]):
        return length(S[1])
    if h == 'union' and S[1] == ():
        return K(0)
    if h == 'vals':
        return length(S[2])
    if h == 'anon':
        return S[2]
    if h == 'pos' and len(S) == 2:
        return S[1]
    if h == 'win':
        return S[2]
    if h == 'wofs':
        return S[2]
    if h in ('gd', 'ptw'):
        return length(S[2]) if h == 'gd' else length(S[1][0])
    if h == 'one':
        return K(1)
    if h == 'flat':
        n = K(1)
        for d in S[1]:
            n = pmul(n, length(d))
        return n
    return ('len', S)
