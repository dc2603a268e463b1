"""Loads the current source of /repo, rewritten so that every float is an exact symbolic
value, into a fresh World of modules."""
import ast
import builtins
import os
import sys
import types

from .sym import Unsupported
from . import pyx
from . import symnp

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'CasimirRio')


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _call(fn, *args):
    return ast.Call(func=_name(fn), args=list(args), keywords=[])


class Rewrite(ast.NodeTransformer):
    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(_call('sym__lit', ast.Constant(value=self.text(n))), n)
        if isinstance(n.value, complex):
            return ast.copy_location(_call('sym__unsupported', ast.Constant(value='complex')), n)
        return n

    src = None

    def text(self, n):
        if self.src is not None:
            seg = ast.get_source_segment(self.src, n)
            if seg is not None:
                seg = seg.replace('_', '')
                try:
                    float(seg)
                    return seg
                except ValueError:
                    pass
        return repr(n.value)

    def visit_JoinedStr(self, n):
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(_call('sym__div', n.left, n.right), n)
        if isinstance(n.op, ast.Pow):
            return ast.copy_location(_call('sym__pow', n.left, n.right), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Div, ast.Pow)) and isinstance(n.target, ast.Name):
            f = 'sym__idiv' if isinstance(n.op, ast.Div) else 'sym__pow'
            return ast.copy_location(ast.Assign(
                targets=[n.target],
                value=_call(f, ast.Name(id=n.target.id, ctx=ast.Load()), n.value)), n)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.slice, (ast.Constant, ast.Slice)):
            if isinstance(n.slice, ast.Constant):
                return n
        has_slice = isinstance(n.slice, ast.Slice) or (
            isinstance(n.slice, ast.Tuple) and any(isinstance(e, ast.Slice) for e in n.slice.elts))
        if has_slice:
            # slices take S through __index__; only the plain elements need wrapping
            if isinstance(n.slice, ast.Tuple):
                n.slice.elts = [e if isinstance(e, (ast.Slice, ast.Constant, ast.Starred))
                                else _call('sym__ix1', e) for e in n.slice.elts]
            return n
        n.slice = _call('sym__ix1', n.slice) if not isinstance(n.slice, ast.Tuple) else \
            ast.Tuple(elts=[e if isinstance(e, (ast.Constant, ast.Starred))
                            else _call('sym__ix1', e) for e in n.slice.elts], ctx=ast.Load())
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'astype':
            return ast.copy_location(ast.Call(func=_name('sym__astype'),
                                              args=[n.func.value] + n.args,
                                              keywords=n.keywords), n)
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None:
            n.type = _name('Exception')
        return n


def rewrite(src, filename):
    tree = ast.parse(src, filename)
    rw = Rewrite()
    rw.src = src
    tree = rw.visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


def unsupported(what):
    raise Unsupported(what)


def helpers():
    return {'sym__lit': symnp.lit, 'sym__div': symnp.div, 'sym__pow': symnp.power,
            'sym__idiv': symnp.idiv, 'sym__ix1': ix1_soft, 'sym__astype': symnp.astype,
            'sym__unsupported': unsupported, **pyx.helpers()}


def ix1_soft(i):
    return symnp.ix1(i)


_ecache = {}


def eval_expr(ex, env):
    code = _ecache.get(ex)
    if code is None:
        tree = ast.parse(ex.strip(), '<numexpr>', 'eval')
        rw = Rewrite()
        tree = rw.visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, '<numexpr>', 'eval')
        _ecache[ex] = code
    env = dict(env)
    env.update(helpers())
    return eval(code, {'__builtins__': {}}, env)


_ccache = {}


def _compiled(path, name):
    st = os.stat(path)
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in _ccache:
        src = open(path, encoding='utf-8').read()
        if path.endswith('.pyx'):
            src = pyx.to_python(src, name)
        _ccache[k] = rewrite(src, path)
    return _ccache[k]


class World:
    """a fresh set of repository modules, symbolically executable"""

    def __init__(self, src=SRC, overrides=None, argv=None):
        self.src = src
        self.mods = {}
        self.overrides = overrides or {}
        self.argv = argv
        self.stubs = {
            'numpy': symnp.NPX, 'math': symnp.MATHX, 'scipy': symnp.SCIPY,
            'scipy.special': symnp.SPECIAL, 'scipy.integrate': symnp.INTEGRATE,
            'scipy.interpolate': symnp.INTERP, 'scipy.optimize': symnp.OPT,
            'numexpr': symnp.NUMEXPR,
            'matplotlib': symnp.Dummy('matplotlib'),
            'matplotlib.pyplot': symnp.Dummy('matplotlib.pyplot'),
        }
        b = dict(builtins.__dict__)
        b.update(int=symnp.IntProxy, float=symnp.FloatProxy, type=symnp.type_, pow=symnp.pow_,
                 isinstance=symnp.isinstance_, round=symnp.round_, __import__=self._import,
                 print=lambda *a, **k: None, sum=symnp.sum_)
        self.builtins = b

    def _find(self, name):
        for ext in ('.py', '.pyx'):
            p = os.path.join(self.src, name + ext)
            if os.path.exists(p):
                return p
        return None

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            raise Unsupported("relative import")
        if name in self.overrides:
            return self.overrides[name]
        if name in self.stubs:
            if '.' in name and not fromlist:
                return self.stubs[name.split('.')[0]]
            m = self.stubs[name]
            for f in fromlist or ():
                if name + '.' + f in self.stubs:
                    pass
            return m
        if name.startswith('matplotlib'):
            return self.stubs['matplotlib']
        if '.' not in name and self._find(name):
            return self.mod(name)
        return builtins.__import__(name, globals, locals, fromlist, level)

    def mod(self, name):
        if name in self.overrides:
            return self.overrides[name]
        if name in self.mods:
            return self.mods[name]
        path = self._find(name)
        if path is None:
            raise ImportError("no module named %r in %s" % (name, self.src))
        code = _compiled(path, name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__['__builtins__'] = self.builtins
        m.__dict__['__sym_world__'] = self
        m.__dict__.update(helpers())
        self.mods[name] = m
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        return m

    def run_main(self, name):
        """execute a repository file as a program"""
        path = self._find(name)
        m = types.ModuleType('__main__')
        m.__file__ = path
        m.__dict__['__builtins__'] = self.builtins
        m.__dict__['__sym_world__'] = self
        m.__dict__.update(helpers())
        exec(_compiled(path, name), m.__dict__)
        return m

    def restore(self):
        pass
