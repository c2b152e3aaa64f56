"""Mechanical behaviour-preserving rewrites of the whole library, to see that
the checks stay quiet:   python3 mech.py MODE[,MODE] DEST

Modes: rename  temps  invert  helper  loops  guards  retvar  noop  kwargs  enum
"""
import ast
import builtins
import copy
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from lastatic.py2 import parse_py2                                   # noqa: E402


def has(node, *types):
    return any(isinstance(x, types) for x in ast.walk(node))


def is_gen(fn):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn))


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


class Rename(ast.NodeTransformer):
    """locals (not parameters) of every function get another name"""

    def visit_FunctionDef(self, fn):
        params = {a.arg for a in fn.args.args}
        if fn.args.vararg:
            params.add(fn.args.vararg.arg)
        if fn.args.kwarg:
            params.add(fn.args.kwarg.arg)
        glob = {n for x in ast.walk(fn) if isinstance(x, ast.Global) for n in x.names}
        if any(isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda)) for x in ast.walk(fn) if x is not fn):
            return fn
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('exec', 'eval', 'locals', 'vars')
               for x in ast.walk(fn)):
            return fn
        loc = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        imp = {(a.asname or a.name).split('.')[0] for x in ast.walk(fn)
               if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        loc -= params | glob | imp
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = x.id + '_v'
            if isinstance(x, ast.ExceptHandler) and x.name in loc:
                x.name += '_v'
        return fn


class Temps(ast.NodeTransformer):
    """the right-hand sides and returned values go through temporaries; the
    last argument-free sub-call is computed first"""
    n = 0

    def fresh(self):
        self.n += 1
        return 'tmp%d_' % self.n

    def visit_FunctionDef(self, fn):
        fn.body = self.block(fn.body)
        return fn

    def block(self, body):
        out = []
        for st in body:
            for f in ('body', 'orelse', 'finalbody'):
                if getattr(st, f, None) and isinstance(getattr(st, f), list):
                    setattr(st, f, self.block(getattr(st, f)))
            for h in getattr(st, 'handlers', []):
                h.body = self.block(h.body)
            if isinstance(st, (ast.Assign, ast.Return)) and isinstance(st.value, (ast.Call, ast.BinOp)):
                self.hoist(st.value, out)
            if isinstance(st, ast.Assign) and isinstance(st.value, (ast.Call, ast.BinOp, ast.Subscript)):
                t = self.fresh()
                out.append(ast.Assign([name(t, ast.Store())], st.value))
                st = ast.Assign(st.targets, name(t))
            out.append(st)
        return out

    def hoist(self, e, out):
        """the first evaluated argument of a call to a plain function"""
        if isinstance(e, ast.Call) and isinstance(e.func, (ast.Name, ast.Attribute)) and e.args and \
                (isinstance(e.func, ast.Name) or isinstance(e.func.value, ast.Name)) and \
                isinstance(e.args[0], (ast.Call, ast.BinOp, ast.Subscript)):
            self.hoist(e.args[0], out)
            t = self.fresh()
            out.append(ast.Assign([name(t, ast.Store())], e.args[0]))
            e.args[0] = name(t)
        elif isinstance(e, ast.BinOp) and isinstance(e.left, (ast.Call, ast.BinOp, ast.Subscript)):
            self.hoist(e.left, out)
            t = self.fresh()
            out.append(ast.Assign([name(t, ast.Store())], e.left))
            e.left = name(t)


class Invert(ast.NodeTransformer):
    """if c: A else: B  ->  if not c: B else: A"""

    def visit_If(self, st):
        self.generic_visit(st)
        if st.orelse:
            t = st.test
            flip = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
                    ast.In: ast.NotIn, ast.NotIn: ast.In}
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in flip and \
                    not isinstance(t.ops[0], (ast.Eq, ast.NotEq)):
                t = ast.Compare(t.left, [flip[type(t.ops[0])]()], t.comparators)
            else:
                t = ast.UnaryOp(ast.Not(), t)
            return ast.If(t, st.orelse, st.body)
        return st


class Helper(ast.NodeTransformer):
    """every function body moves into a private function of the module"""

    def visit_Module(self, mod):
        out = []
        for st in mod.body:
            if isinstance(st, ast.FunctionDef) and self.ok(st):
                out += self.split(st, None)
            elif isinstance(st, ast.ClassDef):
                body = []
                for m in st.body:
                    if isinstance(m, ast.FunctionDef) and self.ok(m) and not m.name.startswith('__'):
                        body += self.split(m, st.name)
                    else:
                        body.append(m)
                st.body = body
                out.append(st)
            else:
                out.append(st)
        mod.body = out
        return mod

    def ok(self, fn):
        return not fn.decorator_list and not is_gen(fn) and not fn.args.vararg and not fn.args.kwarg

    def split(self, fn, cls):
        new = copy.deepcopy(fn)
        new.name = '_do_' + fn.name.lstrip('_')
        new.args.defaults = []
        doc = ast.get_docstring(fn, clean=False)
        if doc is not None:
            new.body = new.body[1:] or [ast.Pass()]
        args = [name(a.arg) for a in fn.args.args]
        if cls is None:
            call = ast.Call(name(new.name), args, [])
        else:
            call = ast.Call(ast.Attribute(args[0], new.name, ast.Load()), args[1:], [])
        fn.body = fn.body[:1 if doc is not None else 0] + [ast.Return(call)]
        return [new, fn]


class Loops(ast.NodeTransformer):
    """list comprehensions assigned to a name become loops; for over range becomes while-free index loops"""

    def visit_FunctionDef(self, fn):
        fn.body = self.block(fn.body)
        return fn

    def block(self, body):
        out = []
        for st in body:
            for f in ('body', 'orelse', 'finalbody'):
                if getattr(st, f, None) and isinstance(getattr(st, f), list):
                    setattr(st, f, self.block(getattr(st, f)))
            for h in getattr(st, 'handlers', []):
                h.body = self.block(h.body)
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and \
                    isinstance(st.value, ast.ListComp) and len(st.value.generators) == 1:
                g = st.value.generators[0]
                t = st.targets[0].id
                if not any(isinstance(x, ast.Name) and x.id == t for x in ast.walk(st.value)):
                    inner = [ast.Expr(ast.Call(ast.Attribute(name(t), 'append', ast.Load()), [st.value.elt], []))]
                    for c in reversed(g.ifs):
                        inner = [ast.If(c, inner, [])]
                    out.append(ast.Assign([name(t, ast.Store())], ast.List([], ast.Load())))
                    out.append(ast.For(g.target, g.iter, inner, []))
                    continue
            out.append(st)
        return out


class Guards(ast.NodeTransformer):
    """if a and b: X (no else)  ->  nested ifs;  else after a leaving branch is dropped"""

    def visit_If(self, st):
        self.generic_visit(st)
        if isinstance(st.test, ast.BoolOp) and isinstance(st.test.op, ast.And) and not st.orelse:
            body = st.body
            for v in reversed(st.test.values):
                body = [ast.If(v, body, [])]
            return body[0]
        if st.orelse and isinstance(st.body[-1], (ast.Return, ast.Raise)):
            return [ast.If(st.test, st.body, [])] + st.orelse
        return st


class RetVar(ast.NodeTransformer):
    """return e -> result = e; return result"""

    def visit_Return(self, st):
        if st.value is None or isinstance(st.value, (ast.Name, ast.Constant)):
            return st
        return [ast.Assign([name('the_result_', ast.Store())], st.value), ast.Return(name('the_result_'))]

    def visit_Lambda(self, n):
        return n


class Noop(ast.NodeTransformer):
    def visit_FunctionDef(self, fn):
        self.generic_visit(fn)
        i = 1 if ast.get_docstring(fn) is not None else 0
        fn.body[i:i] = [ast.If(ast.Constant(False), [ast.Pass()], []),
                        ast.Assign([name('unused_', ast.Store())], ast.Constant(0))]
        return fn


class Enum(ast.NodeTransformer):
    """for i in range(n) -> i counted by hand (when the body has no continue)"""

    n = 0

    def visit_For(self, st):
        self.generic_visit(st)
        if isinstance(st.iter, ast.Call) and isinstance(st.iter.func, ast.Name) and \
                st.iter.func.id in ('range', 'xrange') and len(st.iter.args) == 1 and not st.orelse and \
                isinstance(st.target, ast.Name) and not has(st, ast.Continue):
            if any(isinstance(x, ast.Name) and x.id == st.target.id and isinstance(x.ctx, ast.Store)
                   for b in st.body for x in ast.walk(b)):
                return st
            Enum.n += 1
            k, lim = 'cnt%d_' % Enum.n, 'lim%d_' % Enum.n
            return [ast.Assign([name(k, ast.Store())], ast.Constant(0)),
                    ast.Assign([name(lim, ast.Store())], st.iter.args[0]),
                    ast.While(ast.Compare(name(k), [ast.Lt()], [name(lim)]),
                              [ast.Assign([name(st.target.id, ast.Store())], name(k))] + st.body +
                              [ast.AugAssign(name(k, ast.Store()), ast.Add(), ast.Constant(1))], [])]
        return st


class Kwargs(ast.NodeTransformer):
    """x.copy() of numpy -> np.array(x);  x == None style untouched; a += b -> a = a + b for constants"""

    def visit_AugAssign(self, st):
        if isinstance(st.value, ast.Constant) and isinstance(st.target, ast.Name) and isinstance(st.value.value, int):
            return ast.Assign([st.target], ast.BinOp(name(st.target.id), st.op, st.value))
        return st

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)

    def visit_Compare(self, n):
        self.generic_visit(n)
        swap = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if len(n.ops) == 1 and type(n.ops[0]) in swap and isinstance(n.comparators[0], ast.Constant) and \
                isinstance(n.left, (ast.Name, ast.Attribute)):
            return ast.Compare(n.comparators[0], [swap[type(n.ops[0])]()], [n.left])
        return n


MODES = {'rename': Rename, 'temps': Temps, 'invert': Invert, 'helper': Helper, 'loops': Loops, 'guards': Guards,
         'retvar': RetVar, 'noop': Noop, 'enum': Enum, 'kwargs': Kwargs}


def main():
    modes, dest = sys.argv[1].split(','), sys.argv[2]
    repo = os.environ.get('LA_REPO', '/repo')
    if not os.path.exists(dest):
        shutil.copytree(repo, dest, symlinks=True)
    for d, _, files in os.walk(os.path.join(dest, 'la')):
        if 'test' in d or '/build' in d:
            continue
        for f in files:
            if not f.endswith('.py') or f == 'setup.py':
                continue
            p = os.path.join(d, f)
            with open(p, encoding='utf-8', errors='surrogateescape') as fh:
                src = fh.read()
            tree = parse_py2(src, p)
            assert tree is not None, p
            for m in modes:
                tree = ast.fix_missing_locations(MODES[m]().visit(tree))
            text = ast.unparse(tree)
            with open(p, 'w', encoding='utf-8') as fh:
                fh.write('# -*- coding: utf-8 -*-\nfrom __future__ import print_function\n' + text + '\n')
    print(' '.join(modes), 'applied to', dest)


if __name__ == '__main__':
    main()
