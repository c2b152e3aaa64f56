"""Parse Python-2-only source: the Python 2 interpreter is used purely as a
parser (its `ast` module); nothing of the source is compiled to code or run."""
import ast
import json
import os
import subprocess

PY2 = ['/opt/py27/usr/bin/python2.7', '/usr/bin/python2.7', 'python2.7']

DUMP = r'''
import ast, json, sys
def conv(n):
    if isinstance(n, ast.AST):
        d = {'_': n.__class__.__name__}
        for f in n._fields:
            d[f] = conv(getattr(n, f, None))
        if hasattr(n, 'lineno'):
            d['lineno'] = n.lineno
        return d
    if isinstance(n, list):
        return [conv(x) for x in n]
    if isinstance(n, str):
        return {'_s': n.decode('latin-1')}
    if isinstance(n, unicode):
        return {'_s': n}
    if isinstance(n, complex):
        return {'_c': [n.real, n.imag]}
    if isinstance(n, float) and (n != n or n in (float('inf'), -float('inf'))):
        return {'_f': repr(n)}
    return n
src = sys.stdin.read()
json.dump(conv(ast.parse(src)), sys.stdout)
'''


def parse_py2(src, path):
    for py in PY2:
        if os.path.isabs(py) and not os.path.exists(py):
            continue
        try:
            env = {'PATH': os.environ.get('PATH', ''), 'PYTHONDONTWRITEBYTECODE': '1'}
            p = subprocess.run([py, '-S', '-c', DUMP], input=src.encode('utf-8', 'surrogateescape'),
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60, env=env)
        except (OSError, subprocess.TimeoutExpired):
            continue
        if p.returncode:
            return None
        tree = build(json.loads(p.stdout.decode('utf-8')))
        ast.fix_missing_locations(tree)
        return tree
    return None


def const(v, line):
    n = ast.Constant(v)
    n.lineno, n.col_offset = line, 0
    return n


def build(d, line=1):
    if isinstance(d, list):
        return [build(x, line) for x in d]
    if not isinstance(d, dict):
        return d
    if '_s' in d:
        return d['_s']
    if '_c' in d:
        return complex(*d['_c'])
    if '_f' in d:
        return float(d['_f'])
    t = d['_']
    line = d.get('lineno', line)
    g = lambda k: build(d.get(k), line)

    def loc(n):
        n.lineno, n.col_offset = line, 0
        n.end_lineno, n.end_col_offset = line, 0
        return n
    if t == 'Num':
        return const(g('n'), line)
    if t == 'Str':
        return const(g('s'), line)
    if t == 'Repr':
        return loc(ast.Call(loc(ast.Name('repr', ast.Load())), [g('value')], []))
    if t == 'Name':
        i = g('id')
        if i in ('None', 'True', 'False'):
            return const({'None': None, 'True': True, 'False': False}[i], line)
        return loc(ast.Name(i, g('ctx')))
    if t == 'Param':
        return ast.Store()
    if t == 'Print':
        return loc(ast.Expr(loc(ast.Call(loc(ast.Name('print', ast.Load())), g('values'), []))))
    if t == 'Exec':
        return loc(ast.Expr(loc(ast.Call(loc(ast.Name('exec', ast.Load())), [g('body')], []))))
    if t == 'Raise':
        e = g('type')
        if d.get('inst') is not None and e is not None:
            e = loc(ast.Call(e, [g('inst')], []))
        return loc(ast.Raise(e, None))
    if t == 'TryExcept':
        return loc(ast.Try(g('body'), g('handlers'), g('orelse') or [], []))
    if t == 'TryFinally':
        return loc(ast.Try(g('body'), [], [], g('finalbody')))
    if t == 'ExceptHandler':
        n = g('name')
        return loc(ast.ExceptHandler(g('type'), n.id if isinstance(n, ast.Name) else None, g('body')))
    if t == 'With':
        return loc(ast.With([ast.withitem(g('context_expr'), g('optional_vars'))], g('body')))
    if t == 'arguments':
        args, pre = [], []
        for a in d['args']:
            a = build(a, line)
            if isinstance(a, ast.Name):
                args.append(loc(ast.arg(a.id, None)))
            else:
                args.append(loc(ast.arg('.tuple', None)))
        va = g('vararg')
        kw = g('kwarg')
        return ast.arguments(posonlyargs=[], args=args, vararg=loc(ast.arg(va, None)) if va else None,
                             kwonlyargs=[], kw_defaults=[], kwarg=loc(ast.arg(kw, None)) if kw else None,
                             defaults=g('defaults') or [])
    if t == 'FunctionDef':
        return loc(ast.FunctionDef(g('name'), g('args'), g('body'), g('decorator_list') or [], None))
    if t == 'ClassDef':
        return loc(ast.ClassDef(g('name'), g('bases') or [], [], g('body'), g('decorator_list') or []))
    if t == 'Call':
        args = g('args') or []
        kws = g('keywords') or []
        if d.get('starargs') is not None:
            args = args + [loc(ast.Starred(g('starargs'), ast.Load()))]
        if d.get('kwargs') is not None:
            kws = kws + [ast.keyword(None, g('kwargs'))]
        return loc(ast.Call(g('func'), args, kws))
    if t == 'Index':
        return g('value')
    if t == 'ExtSlice':
        return loc(ast.Tuple(g('dims'), ast.Load()))
    if t == 'Ellipsis':
        return const(Ellipsis, line)
    if t == 'Module':
        return ast.Module(g('body'), [])
    cls = getattr(ast, t)
    kw = {f: g(f) for f in d if f not in ('_', 'lineno')}
    if t == 'comprehension':
        kw['is_async'] = 0
    n = cls(**kw)
    if 'lineno' in d or isinstance(n, (ast.expr, ast.stmt)):
        loc(n)
    return n
