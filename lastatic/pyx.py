"""Cython source as Python source: type annotations and C declarations are
dropped, everything else is kept (line numbers too).  Not translated: pointers,
structs, gil sections; a file with these does not parse and is reported."""
import re

TYPE = (r'(?:(?:unsigned|signed|const|long|short|inline|public|readonly|static)\s+)*'
        r'(?:bint|int|long|short|char|float|double|size_t|Py_ssize_t|ssize_t|list|dict|tuple|set|frozenset|str|'
        r'bytes|unicode|object|bool|void|unsigned|signed|(?:np\.|cnp\.|numpy\.)\w+)(?:\[[^\]]*\])?')


def split_commas(s):
    out, depth, cur, quote = [], 0, '', None
    for c in s:
        if quote:
            if c == quote:
                quote = None
        elif c in '"\'':
            quote = c
        elif c in '([{':
            depth += 1
        elif c in ')]}':
            depth -= 1
        elif c == ',' and depth == 0:
            out.append(cur)
            cur = ''
            continue
        cur += c
    return out + [cur]


def decl(ind, rest):
    """`cdef <type> a, b = 1` as assignments of the initialised names"""
    m = re.match(r'(?:%s)\s+(.*)$' % TYPE, rest)
    names = m.group(1) if m else re.sub(r'^\w+\s+', '', rest, 1)
    inits = [x.strip() for x in split_commas(names) if '=' in x]
    return ind + ('; '.join(inits) if inits else 'pass')


def to_python(src):
    lines = src.split('\n')
    out = []
    block = None
    quote = None                # inside a triple-quoted string
    pending = None
    for line in lines:
        if quote:
            out.append(line)
            if line.count(quote) % 2:
                quote = None
            continue
        st = line.strip()
        ind = line[:len(line) - len(line.lstrip())]
        if block is not None and st and len(ind) <= block:
            block = None
        for q in ('"""', "'''"):
            if line.count(q) % 2:
                quote = q
        if quote:
            out.append(line)
            continue
        if pending is not None:                 # continued parameter list
            pending[1].append(st)
            out.append('')
            if sum(x.count('(') - x.count(')') for x in pending[1]) <= 0:
                out[pending[0]] = header(pending[2], ' '.join(pending[1]))
                pending = None
            continue
        if re.match(r'(?:cimport\b|from\s+\S+\s+cimport\b|ctypedef\b|DEF\b)', st):
            out.append(ind + 'pass')
            continue
        if block is not None and st:
            out.append(decl(ind, st))
            continue
        m = re.match(r'(?:cdef|cpdef|def)\b(.*)$', st)
        if m:
            body = m.group(1).strip()
            if st.startswith('cdef') and body == ':':
                block = len(ind)
                out.append(ind + 'if 1:')
                continue
            if re.match(r'[^=]*\(', body) and (st.startswith(('def', 'cpdef')) or st.rstrip().endswith((':', ',', '('))):
                if st.count('(') > st.count(')'):
                    pending = (len(out), [st], ind)
                    out.append('')
                else:
                    out.append(header(ind, st))
                continue
            if st.startswith('cdef'):
                out.append(decl(ind, body))
                continue
        m = re.match(r'for\s+(\w+)\s+from\s+(.+?)\s*<=\s*\1\s*<\s*(.+):$', st)
        if m:
            out.append('%sfor %s in range(%s, %s):' % (ind, m.group(1), m.group(2), m.group(3)))
            continue
        out.append(re.sub(r'<\s*(?:%s)\s*>' % TYPE, '', line) if re.search(r'[=(,]\s*<\s*\w+\s*>', line) else line)
    return '\n'.join(out)


def header(ind, st):
    m = re.match(r'(?:cdef|cpdef|def)\s+(?:inline\s+)?(?:%s\s+)?(\w+)\s*\((.*)\)\s*(?:except[^:]*|nogil)?\s*:(.*)$' % TYPE, st)
    if not m:
        return ind + st
    ps = []
    for p in split_commas(m.group(2)):
        p = p.strip()
        if not p:
            continue
        q = re.match(r'(?:%s)\s+(?:not\s+None\s+)?(\w+.*)$' % TYPE, p)
        p = q.group(1) if q else p
        ps.append(re.sub(r'\s+(?:not|or)\s+None\b', '', p))
    return '%sdef %s(%s):%s' % (ind, m.group(1), ', '.join(ps), m.group(3))
