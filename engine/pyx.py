"""Cython source -> Python source with the C typing made explicit.

The .pyx file is parsed with Cython's own parser; declarations become assignments, values
stored in C int variables go through sym__cint (truncation), C `//` and `%` under
cdivision go through sym__cfdiv/sym__cmod, and the math.h functions become the symbolic
ones.  32-bit overflow of C ints is not modelled."""
import ast
import math

from .sym import Unsupported, S, mk_trunc

CINTS = {'int', 'long', 'short', 'char', 'size_t', 'Py_ssize_t', 'bint', 'unsigned int',
         'int64_t', 'int32_t', 'intp_t', 'uint64_t', 'uint32_t', 'np.int64_t', 'np.int32_t',
         'np.intp_t', 'int_t', 'np.int_t'}


def cint(x):
    if isinstance(x, S):
        r = mk_trunc(x)
        return int(r.args[0]) if r.op == 'c' else r
    return int(x)


def cfdiv(a, b):
    if isinstance(a, int) and isinstance(b, int):
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    return a // b


def cmod(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b * cfdiv(a, b)
    return a % b


def to_python(src, name):
    try:
        text = _write(src, name)
    except Unsupported:
        raise
    except Exception as e:
        raise Unsupported("cannot transpile %s.pyx: %s" % (name, str(e)[:200]))
    return _post(text)


def _write(src, name):
    from Cython.Compiler.TreeFragment import parse_from_strings
    from Cython.CodeWriter import CodeWriter

    class W(CodeWriter):
        def tname(self, node):
            n = getattr(node, 'name', None)
            if n is None and hasattr(node, 'base_type_node'):
                return 'buffer'
            path = '.'.join(getattr(node, 'module_path', None) or [])
            return (path + '.' if path else '') + str(n)

        def visit_CDefExternNode(self, node):
            stats = getattr(node.body, 'stats', None) or [node.body]
            for st in stats:
                for d in getattr(st, 'declarators', []):
                    b = d
                    while hasattr(b, 'base') and b.base is not None:
                        b = b.base
                    self.putline("%s = sym__cmath(%r)" % (b.name, b.cname or b.name))

        def visit_CImportStatNode(self, node):
            pass

        def visit_FromCImportStatNode(self, node):
            if node.module_name in ('libc.math',):
                for imp in node.imported_names:
                    n, a = imp[1], imp[2]
                    self.putline("%s = sym__cmath(%r)" % (a or n, n))

        def visit_DecoratorNode(self, node):
            pass

        def visit_CTypeDefNode(self, node):
            pass

        def visit_CVarDefNode(self, node):
            t = self.tname(node.base_type)
            for d in node.declarators:
                if d.__class__.__name__ != 'CNameDeclaratorNode':
                    raise Unsupported("declarator " + d.__class__.__name__)
                self.startline("sym__decl__(%r, %r)" % (d.name, t))
                self.endline()
                if d.default is not None:
                    self.startline("%s = " % d.name)
                    self.visit(d.default)
                    self.endline()

        def _args(self, args):
            first = True
            for a in args:
                if not first:
                    self.put(", ")
                first = False
                nm = a.declarator.name or a.base_type.name
                self.put(nm)
                if a.default is not None:
                    self.put("=")
                    self.visit(a.default)

        def _body(self, args, body):
            self.indent()
            for a in args:
                if a.declarator.name:
                    self.putline("sym__decl__(%r, %r)" % (a.declarator.name,
                                                           self.tname(a.base_type)))
                    if self.tname(a.base_type) in CINTS:
                        self.putline("%s = %s" % (a.declarator.name, a.declarator.name))
            self.visit(body)
            self.putline("pass")
            self.dedent()

        def visit_FuncDefNode(self, node):
            self.startline("def %s(" % node.name)
            self._args(node.args)
            self.endline("):")
            self._body(node.args, node.body)

        def visit_DefNode(self, node):
            self.visit_FuncDefNode(node)

        def visit_CFuncDefNode(self, node):
            self.startline("def %s(" % node.declarator.base.name)
            self._args(node.declarator.args)
            self.endline("):")
            self._body(node.declarator.args, node.body)

        def visit_TypecastNode(self, node):
            t = self.tname(node.base_type)
            self.put("sym__cint(" if t in CINTS else "(")
            self.visit(node.operand)
            self.put(")")

        def visit_BinopNode(self, node):
            self.put("(")
            self.visit(node.operand1)
            self.put(" %s " % node.operator.replace('_', ' '))
            self.visit(node.operand2)
            self.put(")")

        def visit_BoolBinopNode(self, node):
            self.visit_BinopNode(node)

        def visit_PrimaryCmpNode(self, node):
            self.put("(")
            self.visit(node.operand1)
            while node is not None:
                self.put(" %s " % node.operator.replace('_', ' '))
                self.visit(node.operand2)
                node = node.cascade
            self.put(")")

        def visit_UnopNode(self, node):
            self.put("(%s" % node.operator)
            self.visit(node.operand)
            self.put(")")

        def visit_NotNode(self, node):
            self.put("(not ")
            self.visit(node.operand)
            self.put(")")

        def visit_CondExprNode(self, node):
            self.put("(")
            CodeWriter.visit_CondExprNode(self, node)
            self.put(")")

        def visit_SingleAssignmentNode(self, node):
            if node.rhs.__class__.__name__ == 'ImportNode':
                imp = node.rhs
                mod = imp.module_name
                mod = getattr(mod, 'value', mod)
                mod = getattr(mod, 'value', mod)
                if getattr(imp, 'is_import_as_name', False):
                    self.putline("import %s as %s" % (mod, node.lhs.name))
                else:
                    self.putline("import %s" % mod)
                return
            CodeWriter.visit_SingleAssignmentNode(self, node)

        def visit_FromImportStatNode(self, node):
            mod = getattr(node.module.module_name, 'value', node.module.module_name)
            mod = getattr(mod, 'value', mod)
            self.putline("from %s import %s" % (mod, ", ".join(
                "%s as %s" % (n, t.name) for n, t in node.items)))

        def visit_FloatNode(self, node):
            self.put(str(node.value))

    tree = parse_from_strings(name, src)
    return '\n'.join(W().write(tree).lines)


class _Post(ast.NodeTransformer):
    def __init__(self):
        self.ints = [set()]

    def visit_FunctionDef(self, n):
        decl = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) \
                    and x.func.id == 'sym__decl__' and x.args[1].value in CINTS:
                decl.add(x.args[0].value)
        self.ints.append(decl)
        self.generic_visit(n)
        self.ints.pop()
        return n

    def visit_Expr(self, n):
        self.generic_visit(n)
        if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) \
                and n.value.func.id == 'sym__decl__':
            return ast.copy_location(ast.Pass(), n)
        return n

    def wrap(self, v):
        return ast.Call(func=ast.Name(id='sym__cint', ctx=ast.Load()), args=[v], keywords=[])

    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) \
                and n.targets[0].id in self.ints[-1]:
            n.value = self.wrap(n.value)
        elif len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) \
                and isinstance(n.value, ast.Tuple) and len(n.targets[0].elts) == len(n.value.elts):
            n.value.elts = [self.wrap(v) if isinstance(t, ast.Name) and t.id in self.ints[-1]
                            else v for t, v in zip(n.targets[0].elts, n.value.elts)]
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Name) and n.target.id in self.ints[-1]:
            v = ast.BinOp(left=ast.Name(id=n.target.id, ctx=ast.Load()), op=n.op, right=n.value)
            return ast.copy_location(ast.Assign(targets=[n.target], value=self.wrap(v)), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.FloorDiv, ast.Mod)):
            f = 'sym__cfdiv' if isinstance(n.op, ast.FloorDiv) else 'sym__cmod'
            return ast.Call(func=ast.Name(id=f, ctx=ast.Load()), args=[n.left, n.right],
                            keywords=[])
        return n


def _post(text):
    t = _Post().visit(ast.parse(text))
    ast.fix_missing_locations(t)
    return ast.unparse(t)


def cmath_fn(n):
    from . import symnp
    m = {'exp': symnp.m_exp, 'log': lambda x: symnp.np_log(symnp.scalar(x)),
         'sqrt': lambda x: symnp.np_sqrt(symnp.scalar(x)),
         'lgamma': lambda x: symnp.lgamma(symnp.scalar(x)),
         'fabs': lambda x: abs(symnp.scalar(x)), 'pow': lambda a, b: symnp.power(
             symnp.scalar(a), symnp.scalar(b)),
         'floor': lambda x: symnp.mk_floor(symnp.scalar(x)),
         'ceil': lambda x: -symnp.mk_floor(-symnp.scalar(x)),
         'tgamma': lambda x: symnp.mk_exp(symnp.lgamma(symnp.scalar(x))),
         'M_PI': symnp.PI}
    if n not in m:
        raise Unsupported("C function " + n)
    return m[n]


def helpers():
    return {'sym__cint': cint, 'sym__cfdiv': cfdiv, 'sym__cmod': cmod,
            'sym__cmath': cmath_fn}
