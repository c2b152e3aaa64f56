"""Properties of the HDF5 archive (la/io.py), decided over the model of h5py and
of the file system in h5model.py."""
from ..core import Check, where_of, path_text
from .. import terms as T
from .. import oracle as O
from .. import h5model as H
from ..catalog import Case, lift, show, sym, index_forms, other
from ..drivers import mklarry, tstr
from ..terms import K, TRUE
from ..values import *
from ..interp import FuncV

A, B = ('sym', 'k0', 'str'), ('sym', 'k1', 'str')
KEYS = {1: Sym(A, 'str'), 2: Sym(('strcat', (A, K('/'), B)), 'str')}


def keypath(n):
    return H.components(H.pieces(KEYS[n]))


def mkworld(I, ndim=1, faults=True):
    I.world = H.World(I, ndim, faults)
    for a in (A, B):
        I.facts.assume(T.eq(K(''), a), False)
    return I.world


def io(I):
    return I.prog.modules['la.io'].env


def IOobj(I):
    return I.call(io(I)['IO'], [I.world.filename], {})


def userfile(I):
    """a File opened by the caller"""
    w = I.world
    f, w.faults = w.faults, False
    h = H.open_(I, w.filename, 'a', 'caller')
    w.faults = f
    return h


def value(I, ndim, etype='builtins.int'):
    v = mklarry(I, 'S', ndim)
    for k in range(ndim):
        if isinstance(etype, tuple):
            es = [Sym(('sym', 'e%d' % i, 'any'), 'any') for i in range(len(etype))]
            for e, n in zip(es, etype):
                I.world.elemtype[e.term] = n
            v.attrs['label'].items[k] = I.new(PyList(es), ('in', 'S', 'label[%d]' % k))
        elif etype:
            I.world.elemtype[('lab', 'S', k)] = etype
    return v


def meth(name, *mk, **opts):
    """a method of IO"""
    def run(I, c):
        o = IOobj(I)
        I.world.subject = o
        args = [m(I, c) for m in mk]
        return I.call(I.getattr(o, name), args, {})
    return Op('IO.' + name, run, **opts)


def prop(name, **opts):
    def run(I, c):
        o = IOobj(I)
        I.world.subject = o
        return I.getattr(o, name)
    return Op('IO.' + name, run, **opts)


def gen(name, **opts):
    """consume everything a generator / iterable method yields"""
    def run(I, c):
        o = IOobj(I)
        I.world.subject = o
        v = I.call(I.getattr(o, name), [], {})
        t, items = I.seq_of(v)
        return v
    return Op('IO.' + name, run, **opts)


def func(name, *mk, **opts):
    def run(I, c):
        f = I.world.filename if c['file'] == 'path' else userfile(I)
        args = [m(I, c) for m in mk]
        return I.call(io(I)[name], [f] + args, {})
    return Op(name, run, files=('path', 'file'), **opts)


def lara(name, fn, **opts):
    def run(I, c):
        w = I.world
        f, w.faults = w.faults, False
        o = I.call(io(I)['lara'], [w.filename, KEYS[c['nkey']]], {})
        w.faults = f
        w.subject = o
        return fn(I, o, c)
    return Op('archived larry ' + name, run, **opts)


class Op(object):
    def __init__(self, name, run, files=('path',), effect='none', keys=(1, 2), ndims=(1, 2), key=True, etypes=None):
        self.name = name
        self.run = run
        self.files = files
        self.effect = effect        # 'none', 'save', 'replace', 'delete', 'data', 'clear'
        self.keys = keys if key else (1,)
        self.ndims = ndims
        self.etypes = etypes or ('builtins.int',)


def key(I, c):
    return KEYS[c['nkey']]


def lar(I, c):
    return value(I, c['ndim'], c.get('etype', 'builtins.int'))


def anykey(I, c):
    return Sym(('sym', 'k0', 'any'), 'any')


def const(v):
    return lambda I, c: Const(v)


def sl(I, c):
    return SliceV(Const(None), Sym(('sym', 'stop', 'int'), 'int'), Const(None))


SAVETYPES = ('builtins.int', None)

OPS = [
    func('save', lar, key, effect='save', etypes=SAVETYPES),
    func('load', key),
    func('delete', key, effect='delete'),
    func('repack', effect='repack', key=False, ndims=(1,)),
    func('is_archived_larry', key),
    func('archive_directory', key=False),
    meth('__setitem__', key, lar, effect='replace', etypes=SAVETYPES),
    meth('__getitem__', key),
    meth('__delitem__', key, effect='delete'),
    meth('__contains__', key),
    meth('has_key', key),
    meth('keys', key=False),
    meth('values', key=False, ndims=(1,)),
    meth('items', key=False, ndims=(1,)),
    gen('iterkeys', key=False),
    gen('itervalues', key=False, ndims=(1,)),
    gen('iteritems', key=False, ndims=(1,)),
    gen('__iter__', key=False),
    meth('__len__', key=False),
    meth('__repr__', key=False),
    meth('clear', effect='clear', key=False),
    meth('repack', effect='repack', key=False, ndims=(1,)),
    prop('space', key=False, ndims=(1,)),
    prop('freespace', key=False, ndims=(1,)),
    lara('[index]', lambda I, o, c: I.getitem(o, sl(I, c)), keys=(1,)),
    lara('[integer]', lambda I, o, c: I.getitem(o, Sym(('sym', 'i', 'int'), 'int')), keys=(1,)),
    lara('[index] = scalar', lambda I, o, c: I.setitem(o, sl(I, c), Sym(('sym', 'v', 'num'), 'num')), keys=(1,),
         effect='data'),
    lara('[index] = larry', lambda I, o, c: I.setitem(o, sl(I, c), mklarry(I, 'V', c['ndim'])), keys=(1,),
         effect='data'),
    lara('shape', lambda I, o, c: I.getattr(o, 'shape'), keys=(1,)),
    lara('dtype', lambda I, o, c: I.getattr(o, 'dtype'), keys=(1,)),
    lara('ndim', lambda I, o, c: I.getattr(o, 'ndim'), keys=(1,)),
    lara('size', lambda I, o, c: I.getattr(o, 'size'), keys=(1,)),
    lara('getlabel', lambda I, o, c: I.call(I.getattr(o, 'getlabel'), [Const(0)], {}), keys=(1,)),
    lara('maxlabel', lambda I, o, c: I.call(I.getattr(o, 'maxlabel'), [], {}), keys=(1,)),
]


class ArchiveCheck(Check):
    may = True
    faults = True
    nofault = ()
    assumptions = ['h5py and the operating system behave as modelled in lastatic/h5model.py',
                   'at most one operation of h5py or the operating system fails per run of an entry point',
                   'no other process changes the archive meanwhile']

    def ops(self):
        return OPS

    def cases(self):
        for op in self.ops():
            for f in op.files:
                for n in op.keys:
                    for nd in op.ndims:
                        for et in op.etypes:
                            c = dict(file=f, nkey=n, ndim=nd, etype=et)
                            d = 'key of %d part(s), %dd%s%s' % (n, nd, ', File object' if f == 'file' else '',
                                                               '' if et else ', labels of any type')
                            yield Case(op.name, d, self.body(op, c), op=op, c=c)

    def body(self, op, c):
        def run(I):
            mkworld(I, c['ndim'], self.faults).nofault = self.nofault
            return op.run(I, c)
        return run


class Closed(ArchiveCheck):
    id = 'C14'
    floor = 2000
    rule = ('typestate of every h5py.File (open -> closed) along every normal and exceptional exit of every public '
            'function and method of la.io, with every h5py / os call able to fail')

    def visit(self, I, o, case):
        w = I.world
        how = 'raises %s' % o.exc.name if o.kind == 'raise' else 'returns'
        if w.faulted:
            how += ' after a failed %s' % w.faulted
        ret = o.value if o.kind == 'return' else None
        for h in w.handles:
            if h.owner == 'code':
                if h.open and h is not ret:
                    self.fail('leak %s %s' % (case.entry, h.site[2] if h.site else ''),
                              '%s: the file opened in %s is still open when it %s; path: %s' % (
                                  case, '%s:%s %s' % h.site if h.site else '?', how, path_text(o)),
                              '%s:%s' % h.site[:2] if h.site else None)
                else:
                    self.ok('closed', '%s: file opened in %s closed when it %s' % (case, h.site[2], how))
            elif h.owner == 'caller' and case.meta['op'].effect != 'repack':
                if not h.open:
                    self.fail('closes %s' % case.entry, "%s: closes the caller's File when it %s; path: %s" % (
                        case, how, path_text(o)))
                else:
                    self.ok("caller's file left open", '%s' % case)
        if ret is not None and isinstance(ret, H.H5Handle):
            if not ret.open:
                self.fail('returns closed %s' % case.entry, '%s: returns a closed file' % case)
            if case.meta['c']['file'] == 'path':
                self.fail('returns open %s' % case.entry,
                          '%s: returns an open file though a file name was given' % case)
        s = getattr(w, 'subject', None)
        if isinstance(s, Inst):
            for n, v in sorted(s.attrs.items()):
                if isinstance(v, H.H5V):
                    self.fail('keeps %s %s' % (case.entry, n),
                              '%s: .%s still refers to the open archive when it %s; path: %s' % (case, n, how,
                                                                                                 path_text(o)))
                else:
                    self.ok('no reference kept', '%s .%s' % (case, n))



def change_text(ch):
    kind, p, e = ch
    if kind == 'attr':
        return 'attribute %s of %s' % (tstr(e[0]), H.pathtext(p))
    return '%s: %s' % (H.pathtext(p), {'gone': 'deleted', 'new': 'created', 'moved': 'moved here',
                                       'data': 'data overwritten'}.get(kind, kind))


def larryhood(w, path):
    """the facts that make the item at path an archived larry"""
    cid = K(w.store.cid)
    return [('h5group', cid, path), ('h5attr', cid, path, K('larry')), ('h5in', cid, path + ((K('x'),),))] + \
        [('h5in', cid, path + ((K(str(k)),),)) for k in range(w.ndim)]


def is_larry_at(I, path):
    """True / False / None: is the original item at path known to be a larry"""
    w = I.world
    rs = [I.facts.query(t) for t in larryhood(w, path)]
    v = T.eq(('h5attrval', K(w.store.cid), path, K('larry')), K(True))
    rs.append(attr_true(I, path))
    if all(r is True for r in rs):
        return True
    if any(r is False for r in rs):
        return False
    rest = [t for t, r in zip(larryhood(w, path), rs) if r is not True]
    if I.facts.query(T.conj(rest)) is False:
        return False
    return None


def attr_true(I, path):
    """did the path find the attribute to be True?"""
    t = ('h5attrval', K(I.world.store.cid), path, K('larry'))
    for f in (T.eq(t, K(True)), T.eq(K(True), t), ('truthy', t), T.eq(t, K(1))):
        r = I.facts.query(f)
        if r is not None:
            return r
    r = I.facts.query(T.eq(t, K(False)))
    return None if r is None else not r


class Rejected(ArchiveCheck):
    id = 'C15'
    floor = 500
    nofault = ('create group',)
    rule = ('every exceptional exit of save, io[key] = larry, delete, del io[key] and assignment to an archived '
            'larry is reached with an empty net effect on the archive (symbolic overlay of created, deleted, moved '
            'nodes and attributes), whichever call fails')

    def ops(self):
        return [op for op in OPS if op.effect in ('save', 'replace', 'delete', 'data')]

    def visit(self, I, o, case):
        w = I.world
        if o.kind != 'raise':
            return
        why = o.exc.name + (' (%s failed)' % w.faulted if w.faulted else '')
        ch = w.store.changes(I)
        if any(x[0] == 'unknown' for x in ch):
            self.unknown('change of the archive not followed')
        elif ch:
            self.fail('%s %s' % (case.entry, ch[0][0]),
                      '%s raises %s but the archive has changed (%s); path: %s' % (
                          case, why, '; '.join(change_text(x) for x in ch[:4]), path_text(o)),
                      '%s:%s' % o.site[:2] if o.site else None)
        else:
            self.ok('unchanged', '%s raises %s: archive unchanged' % (case, why))


class Repacked(ArchiveCheck):
    id = 'C16'
    floor = 20
    rule = ('after every step of repack (open, copy, close, rename, remove; each able to fail) some file of the '
            'modelled disk holds every item of the archive; on return the archive path does, and nothing else is left')

    def ops(self):
        return [op for op in OPS if op.effect == 'repack']

    def visit(self, I, o, case):
        w = I.world
        name = H.pieces(w.filename)
        for e in I.events:
            if e['kind'] != 'disk':
                continue
            st = [s for _, s in e['state']]
            if any(s is True for s in st):
                self.ok('held', '%s: after "%s" in %s' % (case, e['what'], e.get('func')))
            elif any(s is None for s in st):
                self.unknown('content of a file not followed')
            else:
                self.fail('%s lost at %s' % (case.entry, e['what']),
                          '%s: after "%s" no file on disk holds the whole archive; path: %s' % (
                              case, e['what'], path_text(o)), where_of(e))
        if o.kind == 'return':
            st = w.fs.names.get(name)
            ok = st.intact(I) if st is not None else False
            if ok is None:
                self.unknown('content of a file not followed')
            elif not ok:
                self.fail('%s result' % case.entry, '%s returns, but the archive path does not hold the whole '
                          'archive; path: %s' % (case, path_text(o)))
            else:
                self.ok('result', '%s: archive path complete on return' % case)
            left = [n for n in w.fs.names if n != name]
            if left:
                self.fail('%s leftover' % case.entry, '%s returns and leaves another file behind; path: %s' % (
                    case, path_text(o)))
            else:
                self.ok('no leftover', '%s' % case)
        elif not w.faulted:
            self.fail('%s raises' % case.entry, '%s raises %s although nothing failed; path: %s' % (
                case, o.exc.name, path_text(o)))
        else:
            st = w.fs.names.get(name)
            if st is not None and st.intact(I) is False:
                self.fail('%s failed' % case.entry, '%s: after a failed %s the archive path holds an incomplete '
                          'archive; path: %s' % (case, w.faulted, path_text(o)))
            left = [n for n in w.fs.names if n != name]
            if left and st is not None and st.intact(I) and w.faulted in COPYING:
                self.fail('%s failed leftover' % case.entry, '%s: a failed %s leaves another file behind; path: %s' % (
                    case, w.faulted, path_text(o)))


class Touched(ArchiveCheck):
    id = 'C18'
    floor = 500
    faults = False
    rule = ('net effect of every public function of la.io on the archive, compared with the nodes the operation is '
            'about; what is deleted or replaced is known to be an archived larry on every such path')

    def visit(self, I, o, case):
        w = I.world
        op, c = case.meta['op'], case.meta['c']
        if o.kind != 'return':
            return
        ch = w.store.changes(I)
        if any(x[0] == 'unknown' for x in ch):
            self.unknown('change of the archive not followed')
            return
        key = keypath(c['nkey'])
        ends = [key + ((K('x'),),)] + [key + ((K(str(k)),),) for k in range(c['ndim'])]
        for x in ch:
            kind, p, e = x
            bad = None
            if kind == 'new' and op.effect in ('save', 'replace'):
                if p in ends:
                    if e[1] != 'dataset':
                        bad = 'a group where a dataset is expected'
                elif p == key[:len(p)]:
                    if e[1] != 'group':
                        bad = 'a dataset where a group is expected'
                    elif e[3]:
                        # something that was there before has been replaced
                        if op.effect == 'save' or p != key:
                            bad = 'replaces what was stored there'
                        elif is_larry_at(I, p) is not True:
                            bad = 'replaces an item that need not be a larry'
                else:
                    bad = 'creates an unrelated item'
            elif kind == 'attr' and op.effect in ('save', 'replace'):
                if not (p == key and e[0] == K('larry') or p in ends[1:]):
                    bad = 'sets an attribute of an unrelated item'
            elif kind == 'gone' and op.effect == 'delete':
                if p != key:
                    bad = 'deletes another item'
                elif is_larry_at(I, p) is not True:
                    bad = 'deletes an item that need not be a larry'
            elif kind == 'gone' and op.effect == 'clear':
                pass
            elif kind == 'data' and op.effect == 'data':
                if p != ends[0]:
                    bad = 'writes to another dataset'
            else:
                bad = 'an operation that must not do this'
            if bad:
                self.fail('%s %s %s' % (case.entry, kind, bad),
                          '%s: %s (%s); path: %s' % (case, change_text(x), bad, path_text(o)))
            else:
                self.ok('%s %s' % (op.name, kind), '%s: %s' % (case, change_text(x)))
        if not ch:
            if op.effect in ('save', 'replace'):
                self.fail('%s nothing' % case.entry, '%s returns without saving anything; path: %s' % (
                    case, path_text(o)))
            elif op.effect == 'delete':
                self.fail('%s nothing' % case.entry, '%s returns without deleting anything; path: %s' % (
                    case, path_text(o)))
            else:
                self.ok('%s unchanged' % op.name, '%s: archive unchanged' % case)
        elif op.effect in ('save', 'replace'):
            have = set(x[1] for x in ch if x[0] == 'new')
            miss = [p for p in ends if p not in have]
            if miss:
                self.fail('%s incomplete' % case.entry, '%s returns without saving %s; path: %s' % (
                    case, H.pathtext(miss[0]), path_text(o)))
            else:
                self.ok('%s complete' % op.name, '%s' % case)
        if op.name in ('load', 'IO.__getitem__') and is_larry_at(I, key) is not True:
            self.fail('%s guard' % case.entry, '%s returns something for an item that need not be a larry; '
                      'path: %s' % (case, path_text(o)))
        if op.effect == 'clear':
            self.cleared(I, o, case, ch)
        if op.name in LISTINGS:
            self.listing(I, o, case, I.seq_of(o.value)[0])
        elif op.name == 'IO.__len__':
            t = o.value.term if isinstance(o.value, Sym) else None
            ls = set(s for s in subterms(t) if s[:1] == ('len',))
            if len(ls) == 1 and not O.opaque(t) and t != list(ls)[0]:
                self.fail('%s answer' % case.entry, '%s is %s, not the number of listed keys' % (case, tstr(t)))
            self.listing(I, o, case, list(ls)[0][1] if len(ls) == 1 else None)
        elif op.name in ('IO.__contains__', 'IO.has_key'):
            if not isinstance(o.value, Const):
                self.unknown('answer not understood')
                return
            tested = [(t, b) for t, b in o.taken if t[0] == 'in' and t[1] == A] + \
                [(t[1], not b) for t, b in o.taken if t[0] == 'not' and t[1][0] == 'in' and t[1][1] == A]
            if not tested:
                other = self.othertest(I, o)
                if other is not None:
                    return self.fail('%s answer' % case.entry, '%s answers by %s, not by whether the key is listed; '
                                     'path: %s' % (case, tstr(other), path_text(o)))
            if len(tested) != 1:
                self.unknown('answer not understood')
                return
            t, truth = tested[0]
            if o.value.v is not truth:
                self.fail('%s answer' % case.entry, '%s answers %r when the key is %sone of the listed ones; '
                          'path: %s' % (case, o.value.v, '' if truth else 'not ', path_text(o)))
            else:
                self.listing(I, o, case, t[2][1] if t[2][0] == 'set' else t[2])
        elif op.name == 'is_archived_larry':
            known = is_larry_at(I, key)
            if not isinstance(o.value, Const):
                self.unknown('answer not understood')
            elif known is None:
                self.fail('%s answer' % case.entry, '%s answers %r for any item with %s' % (
                    case, o.value.v, path_text(o)))
            elif o.value.v is not known:
                self.fail('%s answer' % case.entry, '%s answers %r for an item that is %san archived larry; path: %s'
                          % (case, o.value.v, '' if known else 'not ', path_text(o)))
            else:
                self.ok('answer', '%s: %r' % (case, known))

    def othertest(self, I, o):
        """the answer depends on a comparison of the key with listed keys that is
        not equality: that comparison"""
        base = ('h5items', K(I.world.store.cid))
        for t, b in o.taken:
            for c in subterms(t):
                if c[:1] != ('comp',) or len(c) < 4 or c[2][:2] != ('at', base):
                    continue
                lits = c[3][1] if c[3][0] == 'and' else (c[3],)
                mine = [l[1] if l[0] == 'truthy' else l for l in lits if A in subterms(l)]
                if mine and all(l[0] == 'app' and l[1] in PARTIAL or l[0] == 'in' and l[1] == A and l[2] == c[2] or
                                l[0] == 'in' and l[1] == c[2] and l[2] == A for l in mine):
                    return mine[0]
        return None

    def cleared(self, I, o, case, ch):
        """every listed larry is deleted"""
        base = ('h5items', K(I.world.store.cid))
        if not ch:
            if any(base in subterms(t) for t, _ in o.taken):
                return self.unknown('clear: empty or not')
            return self.fail('%s nothing' % case.entry, '%s returns without deleting anything' % case)
        for kind, p, e in ch:
            if kind != 'gone' or e[1] != 'loop':
                self.unknown('clear: deletion not followed')
                continue
            for c in e[2]:
                lits = c[1] if c[0] == 'and' else (c,)
                keyonly = [l for l in lits if not any(
                    x[:1] and isinstance(x[0], str) and x[0].startswith('h5') and x[0] != 'h5items'
                    for x in subterms(l)) and not O.opaque(l)]
                if keyonly and len(keyonly) == len(lits):
                    return self.fail('%s skips' % case.entry, '%s leaves larrys for which %s' % (case, tstr(c)))
                self.unknown('clear: condition')
            if not e[2]:
                self.ok('clear', '%s: deletes each listed larry' % case)

    def listing(self, I, o, case, t):
        """t lists the archived larrys of the file"""
        w = I.world
        base = ('h5items', K(w.store.cid))
        if t == base:
            j, lits = 0, ()
        elif t is None or t[0] != 'comp' or len(t[1]) != 1:
            self.unknown('list of keys not understood')
            return
        else:
            (j, n) = t[1][0]
            if t[2] != T.at(base, ('j', j)):
                if O.opaque(t[2]) or O.has_head(t[2], ('app',)):
                    self.unknown('list of keys not understood')
                else:
                    self.fail('%s key' % case.entry, '%s lists %s, not the keys of items' % (case, tstr(t[2])))
                return
            lits = t[3][1] if t[3][0] == 'and' else (t[3],)
        path = ((T.at(base, ('j', j)),),)
        val = ('h5attrval', K(w.store.cid), path, K('larry'))
        for want in larryhood(w, path) + [val]:
            if want in lits or want == val and any(val in subterms(l) for l in lits):
                self.ok('listed larrys', '%s requires %s' % (case, tstr(want)))
            elif O.unknown_term(t):
                self.unknown('filter of the listing not understood')
            else:
                self.fail('%s filter' % case.entry, '%s lists items for which %s need not hold' % (case, tstr(want)))


COPYING = ('copy',)
PARTIAL = ('.startswith', '.endswith', '.find', '.lower', '.count')
LISTINGS = ('archive_directory', 'IO.keys', 'IO.iterkeys', 'IO.__iter__')


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            for y in subterms(x):
                yield y


ETYPES = ('builtins.str', 'builtins.int', 'builtins.float', 'builtins.bool', 'datetime.date', 'datetime.time',
          'datetime.datetime')
# labels along one axis that are of two types
MIXED = tuple((a, b) for a in ETYPES for b in ETYPES if a != b)


def replaced(t, a, b):
    if t == a:
        return b
    return tuple(replaced(x, a, b) for x in t) if isinstance(t, tuple) else t


def save_load(I, c):
    w = I.world
    v = lar(I, c)
    I.call(io(I)['save'], [w.filename, v, key(I, c)], {})
    w.saved = v
    return I.call(io(I)['load'], [w.filename, key(I, c)], {})


def put_get(I, c):
    o = IOobj(I)
    v = lar(I, c)
    I.setitem(o, key(I, c), v)
    I.world.saved = v
    return I.getitem(o, key(I, c))


def put_get_all(I, c):
    r = put_get(I, c)
    return I.getitem(r, SliceV(Const(None), Const(None), Const(None)))


class RoundTrip(ArchiveCheck):
    id = 'C17'
    floor = 200
    faults = False
    rule = ('abstract composition of the encoding and decoding of labels, per element type: what load returns has '
            'the labels, the values and the axes of what was saved, element by element')

    def ops(self):
        return [Op('save, load', save_load, etypes=ETYPES + (None,)),
                Op('io[key] = larry, io[key]', put_get, etypes=ETYPES + (None,), keys=(1,)),
                Op('io[key] = larry, io[key][:]', put_get_all, etypes=ETYPES + (None,), keys=(1,), ndims=(1,))] + \
            [Op('save, load', save_load, etypes=MIXED, keys=(1,), ndims=(1,))]

    def run(self):
        ArchiveCheck.run(self)
        for k in sorted(self.extra):
            if k.startswith('returns ') and not self.extra[k].get('returns'):
                self.fail('never %s' % k[8:], '%s: never returns on the analysed paths' % k[8:])
        for k in [k for k in self.extra if k.startswith('returns ')]:
            del self.extra[k]

    def visit(self, I, o, case):
        w, c = I.world, case.meta['c']
        et = c['etype']
        tag = '%s, labels of type %s' % (case.entry, et or 'any')
        if isinstance(et, tuple):
            if o.kind != 'return':
                self.ok('mixed labels refused', tag)
            else:
                self.fail('mixed %s' % tag, '%s: labels of types %s are saved; they are not loaded as they were; '
                          'path: %s' % (case, ', '.join(et), path_text(o)))
            return
        d = self.extra.setdefault('returns ' + tag, {'returns': 0})
        if et is None:
            d['returns'] = 1
        if o.kind != 'return':
            return
        d['returns'] += 1
        r, v = o.value, w.saved
        if not isinstance(r, Inst):
            self.unknown('result is not an instance')
            return
        la, lb = I.seq_of(v.attrs['label'])[1], r.attrs.get('label')
        lb = I.seq_of(lb)[1] if lb is not None else None
        if lb is None:
            self.unknown('labels of the result not understood')
            return
        if len(la) != len(lb):
            self.fail('axes %s' % tag, '%s: %d axes were saved, %d are loaded' % (case, len(la), len(lb)))
            return
        for k, (x, y) in enumerate(zip(la, lb)):
            if isinstance(y, Unk):
                self.unknown('label %d not understood' % k)
                continue
            a, b = I.facts.norm(I.seqterm_of(x)), I.seqterm_of(y)
            if b is None:
                self.unknown('label %d not understood' % k)
                continue
            b = I.facts.norm(b)
            q = I.facts.query
            if a == b or q(T.eq(a, b)) is True or O.expand(I, a) == O.expand(I, b) or (
                    q(T.eq(T.length(a), K(0))) is True and q(T.eq(T.length(b), K(0))) is True):
                self.ok('labels', '%s: label %d' % (tag, k))
            elif O.opaque(b):
                self.unknown('label %d not understood' % k)
            elif et is None and O.has_head(b, ('app',)):
                self.unknown('label %d of unknown type decoded' % k)
            else:
                self.fail('label %s' % tag, '%s: labels of axis %d saved as %s are loaded as %s; path: %s' % (
                    case, k, tstr(a), tstr(b)[:200], path_text(o)))
        if r.cls.name == 'larry' and isinstance(r.attrs.get('x'), Arr):
            a, b = v.attrs['x'], r.attrs['x']
            x, y = I.facts.norm(a.buf.content), I.facts.norm(b.buf.content)
            same = len(a.dims) == len(b.dims) and all(
                T.eq(p, q) == TRUE or I.facts.query(T.eq(p, q)) is True or O.same_labels(I, p, q) is True
                for p, q in zip(a.dims, b.dims))
            if x == y and same:
                self.ok('values', tag)
            elif O.opaque(y):
                self.unknown('values not understood')
            else:
                self.fail('values %s' % tag, '%s: values %s (%s) are loaded as %s (%s)' % (
                    case, tstr(x), ', '.join(map(tstr, a.dims)), tstr(y)[:200], ', '.join(map(tstr, b.dims))))


def stored(fn):
    """io[key] = larry; then the same is asked of the larry and of io[key]"""
    def run(I, c):
        w = I.world
        r = put_get(I, c)
        v = w.saved
        w.stage = 'larry'
        w.want = fn(I, v, c, None)
        w.stage = 'archived larry'
        w.subject = v
        return fn(I, r, c, lambda: I.call(io(I)['load'], [w.filename, key(I, c)], {}))
    return run


def indexed(ix):
    return lambda I, o, c, whole: I.getitem(o, lift(I, ix))


def assigned(ix, val):
    def f(I, o, c, whole):
        I.setitem(o, lift(I, ix), lift(I, val))
        return whole() if whole else o
    return f


def asked(name, *args):
    def f(I, o, c, whole):
        a = I.getattr(o, name)
        return a if not args else I.call(a, [lift(I, x) for x in args[1:]], {})
    return f


class Archived(ArchiveCheck):
    id = 'C36'
    floor = 200
    faults = False
    rule = ('io[key] after io[key] = larry and the larry itself are given the same question (shape, ndim, size, '
            'dtype, label queries, indexing of every documented form, assignment followed by load) in one abstract '
            'store; the answers are compared term by term')

    def ops(self):
        out = []
        for nd in (1, 2, 3, 4) if self.thorough else (1, 2, 3):
            for n in ('shape', 'ndim', 'size', 'dtype'):
                out.append(Op('io[key].%s' % n, stored(asked(n)), keys=(1,), ndims=(nd,)))
            for n in ('maxlabel', 'minlabel'):
                out.append(Op('io[key].%s()' % n, stored(asked(n, ())), keys=(1,), ndims=(nd,)))
                for k in range(nd):
                    out.append(Op('io[key].%s(%d)' % (n, k), stored(asked(n, (), k)), keys=(1,), ndims=(nd,)))
            for k in range(nd):
                out.append(Op('io[key].getlabel(%d)' % k, stored(asked('getlabel', (), k)), keys=(1,), ndims=(nd,)))
                for exact in (True, False):
                    out.append(Op('io[key].labelindex(p, %d, %s)' % (k, exact), stored(asked(
                        'labelindex', (), sym('p', 'any'), k, exact)), keys=(1,), ndims=(nd,)))
            for ix in index_forms(nd):
                out.append(Op('io[key][%s]' % show(ix), stored(indexed(ix)), keys=(1,), ndims=(nd,)))
                out.append(Op('io[key][%s] = v' % show(ix), stored(assigned(ix, sym('v', 'float'))), keys=(1,),
                              ndims=(nd,)))
                out.append(Op('io[key][%s] = larry' % show(ix), stored(assigned(ix, other('B', nd))), keys=(1,),
                              ndims=(nd,)))
        return out

    def visit(self, I, o, case):
        w = I.world
        if o.kind != 'return' or getattr(w, 'stage', None) != 'archived larry':
            return
        for what, r in self.compare(I, w.want, o.value):
            if r is True:
                self.ok(case.entry, '%s: %s; path: %s' % (case, what, path_text(o)))
            elif r is None:
                self.unknown('%s: %s' % (case.entry, what))
            else:
                self.fail('%s: %s' % (case.entry, what), '%s: %s of the archived larry is %s, of the larry %s; path: %s' % (
                    case, what, r[1], r[0], path_text(o)))

    def compare(self, I, a, b, what='result'):
        """[(what, True / None / (text, text))]"""
        if isinstance(a, Unk) or isinstance(b, Unk):
            return [(what, None)]
        if isinstance(a, Inst) and isinstance(b, Inst) and a.cls.name == b.cls.name == 'larry':
            return self.compare(I, a.attrs.get('x'), b.attrs.get('x'), 'data') + \
                self.compare(I, a.attrs.get('label'), b.attrs.get('label'), 'label')
        if isinstance(a, Arr) and isinstance(b, Arr):
            if len(a.dims) != len(b.dims):
                return [('number of axes', (len(a.dims), len(b.dims)))]
            return [self.term(I, ('pos', T.length(x)), ('pos', T.length(y)), 'length of axis %d' % k)
                    for k, (x, y) in enumerate(zip(a.dims, b.dims))] + \
                [self.term(I, a.buf.content, b.buf.content, 'data')]
        if isinstance(a, (PyList, TupleV)) and isinstance(b, (PyList, TupleV)) and type(a) is type(b):
            x, y = I.seq_of(a)[1], I.seq_of(b)[1]
            if x is not None and y is not None:
                if len(x) != len(y):
                    return [('length of %s' % what, (len(x), len(y)))]
                return [r for k, (p, q) in enumerate(zip(x, y)) for r in self.compare(I, p, q, '%s[%d]' % (what, k))]
            return [self.term(I, I.seqterm_of(a), I.seqterm_of(b), what)]
        if type(a) is not type(b) and not (isinstance(a, (Const, Sym)) and isinstance(b, (Const, Sym))):
            scalar = (Const, Sym)
            if isinstance(a, (Inst, PyList, TupleV) + scalar) and isinstance(b, (Inst, PyList, TupleV) + scalar):
                return [(what, (type(a).__name__, type(b).__name__))]
            return [(what, None)]
        return [self.term(I, I.freeze(a), I.freeze(b), what)]

    def term(self, I, a, b, what):
        if a is None or b is None:
            return what, None
        # label lists known to be empty
        none = set(x for t in (a, b) for x in subterms(t) if x[:1] == ('lab',) and
                   I.facts.query(T.eq(T.length(x), K(0))) is True)
        for x in none:
            a, b = replaced(a, x, ('lst',)), replaced(b, x, ('lst',))
        a, b = I.facts.norm(a), I.facts.norm(b)
        if none and a != b and (a == ('lst',) or b == ('lst',)):
            z = b if a == ('lst',) else a
            if any(I.facts.query(T.eq(T.length(y), K(0))) is True for y in (z, I.facts.norm(z))):
                return what, True
        if a == b or I.facts.query(T.eq(a, b)) is True or O.expand(I, a) == O.expand(I, b):
            return what, True
        if O.opaque(a) or O.opaque(b) or O.unknown_term(a) or O.unknown_term(b):
            return what, None
        return what, (tstr(a)[:250], tstr(b)[:250])


CHECKS = [Archived, Closed, Rejected, Repacked, RoundTrip, Touched]
