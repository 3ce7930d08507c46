"""Loads the library's current source: modules, imports, classes, functions, decorators."""
import ast
import os
import hashlib
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'pydtmc'


class AnalysisBroken(Exception):
    """An anchor of a rule vanished, or the analysis could not reach a verdict at all (error exit)."""


class FuncInfo:
    def __init__(self, module, node, qualname, cls=None):
        self.module = module
        self.node = node
        self.name = node.name if hasattr(node, 'name') else '<lambda>'
        self.qualname = qualname
        self.cls = cls
        self.parent = None
        self.kind = 'function'
        self.marks = {}
        self.decorators = list(getattr(node, 'decorator_list', []))
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = dict(zip(self.params[len(self.params) - len(a.defaults):], a.defaults))
        for k, d in zip(self.kwonly, a.kw_defaults):
            if d is not None:
                self.defaults[k] = d
        self._locals = None
        self._isgen = None

    @property
    def doc(self):
        return ast.get_docstring(self.node) or '' if isinstance(self.node, ast.FunctionDef) else ''

    @property
    def ident(self):
        return f'{self.module.name}.{self.qualname}'

    def loc(self, node=None):
        n = node if node is not None and hasattr(node, 'lineno') else self.node
        return f'{self.module.relpath}:{n.lineno}'

    @property
    def locals(self):
        if self._locals is None:
            out = set(self.params) | set(self.kwonly)
            if self.vararg:
                out.add(self.vararg)
            if self.kwarg:
                out.add(self.kwarg)
            glob = set()
            body = self.node.body if isinstance(self.node.body, list) else [self.node.body]
            stack = list(body)
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out.add(n.name)
                    continue
                if isinstance(n, ast.Lambda):
                    continue
                if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    stack.append(n.generators[0].iter)
                    for x in ast.walk(n):
                        if isinstance(x, ast.NamedExpr):
                            out.add(x.target.id)
                    continue
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    glob |= set(n.names)
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)
                if isinstance(n, ast.ExceptHandler) and n.name:
                    out.add(n.name)
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    for al in n.names:
                        out.add((al.asname or al.name).split('.')[0])
                stack.extend(ast.iter_child_nodes(n))
            self._locals = out - glob
        return self._locals

    @property
    def is_generator(self):
        if self._isgen is None:
            r = False
            stack = list(self.node.body) if isinstance(self.node.body, list) else [self.node.body]
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                stack.extend(ast.iter_child_nodes(n))
            self._isgen = r
        return self._isgen


class ClassInfo:
    def __init__(self, module, node):
        self.module = module
        self.node = node
        self.name = node.name
        self.members = {}
        self.classattrs = {}
        self.bases = node.bases

    @property
    def ident(self):
        return f'{self.module.name}.{self.name}'


class Module:
    def __init__(self, name, path, relpath):
        self.name = name
        self.path = path
        self.relpath = relpath
        with open(path, encoding='utf-8') as f:
            self.source = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.tree = ast.parse(self.source, path)
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                c._parent = n
        self.functions = {}
        self.classes = {}
        self.imports = {}     # local name -> list of ('ext', dotted) | ('repo', module, name)


class Repo:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        base = os.path.join(self.root, PKG)
        if not os.path.isdir(base):
            raise AnalysisBroken(f'package directory {base} not found')
        for dp, dn, fn in os.walk(base):
            dn.sort()
            for f in sorted(fn):
                if f.endswith('.py'):
                    path = os.path.join(dp, f)
                    rel = os.path.relpath(path, self.root)
                    name = rel[:-3].replace(os.sep, '.')
                    short = name[len(PKG) + 1:] if name != PKG else PKG
                    self.modules[short] = Module(short, path, rel)
        self.all_functions = []
        for m in self.modules.values():
            self._index(m)
        self.digest = hashlib.sha256(''.join(m.source for _, m in sorted(self.modules.items())).encode()).hexdigest()[:16]

    def _index(self, m):
        def handle(stmts):
            for s in stmts:
                if isinstance(s, ast.FunctionDef):
                    fi = FuncInfo(m, s, s.name)
                    m.functions[s.name] = fi
                    self._inner(m, fi)
                    self.all_functions.append(fi)
                elif isinstance(s, ast.ClassDef):
                    ci = ClassInfo(m, s)
                    m.classes[s.name] = ci
                    self._class(m, ci)
                elif isinstance(s, ast.Import):
                    for al in s.names:
                        if al.asname:
                            m.imports.setdefault(al.asname, []).append(('ext', al.name))
                        else:
                            t = al.name.split('.')[0]
                            m.imports.setdefault(t, []).append(('ext', t))
                elif isinstance(s, ast.ImportFrom):
                    for al in s.names:
                        m.imports.setdefault(al.asname or al.name, []).append(self._from(m, s, al.name))
                elif isinstance(s, (ast.Try, ast.If)):
                    handle(s.body)
                    handle(s.orelse)
                    for h in getattr(s, 'handlers', []):
                        handle(h.body)
        handle(m.tree.body)

    def _from(self, m, s, name):
        mod = s.module or ''
        if s.level:
            return ('repo', mod, name)
        if mod == PKG or mod.startswith(PKG + '.'):
            return ('repo', mod[len(PKG) + 1:], name)
        return ('ext', f'{mod}.{name}')

    def _inner(self, m, fi):
        body = fi.node.body if isinstance(fi.node.body, list) else []
        stack = list(body)
        while stack:
            n = stack.pop()
            if isinstance(n, ast.FunctionDef):
                sub = FuncInfo(m, n, f'{fi.qualname}.{n.name}', fi.cls)
                sub.parent = fi
                n._fi = sub
                self.all_functions.append(sub)
                self._inner(m, sub)
                continue
            if isinstance(n, ast.ClassDef):
                continue
            stack.extend(ast.iter_child_nodes(n))

    def _class(self, m, ci):
        for s in ci.node.body:
            if isinstance(s, ast.FunctionDef):
                fi = FuncInfo(m, s, f'{ci.name}.{s.name}', ci)
                fi.kind = 'method'
                for d in s.decorator_list:
                    base = d.func if isinstance(d, ast.Call) else d
                    r = self.resolve_expr(m, base)
                    nm = r[-1] if isinstance(r, tuple) and r else None
                    nm = nm.split('.')[-1] if isinstance(nm, str) else getattr(nm, 'name', None)
                    if nm == 'staticmethod':
                        fi.kind = 'static'
                    elif nm == 'classmethod':
                        fi.kind = 'classmethod'
                    elif nm == 'property' or nm == 'abstractproperty':
                        fi.kind = 'property'
                    elif nm == 'cached_property':
                        fi.kind = 'cached'
                    elif nm == 'object_mark' and isinstance(d, ast.Call):
                        try:
                            for k in d.keywords:
                                fi.marks[k.arg] = ast.literal_eval(k.value)
                            for nm2, a in zip(['aliases', 'instance_generator', 'random_output'], d.args):
                                fi.marks[nm2] = ast.literal_eval(a)
                        except ValueError:
                            fi.marks['_unresolved'] = True
                ci.members[self.mangle(ci, s.name)] = fi
                self._inner(m, fi)
                self.all_functions.append(fi)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        ci.classattrs[self.mangle(ci, t.id)] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                ci.classattrs[self.mangle(ci, s.target.id)] = s.value

    @staticmethod
    def mangle(ci, name):
        if ci is not None and name.startswith('__') and not name.endswith('__'):
            return f'_{ci.name.lstrip("_")}{name}'
        return name

    def resolve_expr(self, m, e):
        """('ext', dotted) | ('func', FuncInfo) | ('class', ClassInfo) | ('builtin', name) | None"""
        if isinstance(e, ast.Name):
            return self.resolve_name(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if b and b[0] == 'ext':
                return ('ext', f'{b[1]}.{e.attr}')
            if b and b[0] == 'class' and e.attr in b[1].members:
                return ('func', b[1].members[e.attr])
        return None

    def resolve_name(self, m, name, seen=()):
        if name in m.functions:
            return ('func', m.functions[name])
        if name in m.classes:
            return ('class', m.classes[name])
        if name in m.imports:
            for imp in m.imports[name]:
                if imp[0] == 'ext':
                    return imp
                tm = self.modules.get(imp[1] or '__init__')
                if tm is None or (imp[1], imp[2]) in seen:
                    return None
                return self.resolve_name(tm, imp[2], seen + ((imp[1], imp[2]),))
        import builtins
        if hasattr(builtins, name):
            return ('builtin', name)
        return None

    # -- anchors -----------------------------------------------------------------------------
    def module(self, name):
        if name not in self.modules:
            raise AnalysisBroken(f'module {name} not found')
        return self.modules[name]

    def func(self, module, qual):
        m = self.module(module)
        if '.' in qual:
            c, f = qual.split('.', 1)
            ci = self.cls(module, c)
            f = self.mangle(ci, f)
            if f not in ci.members:
                raise AnalysisBroken(f'{module}.{qual} not found')
            return ci.members[f]
        if qual in m.functions:
            return m.functions[qual]
        r = self.resolve_name(m, qual)
        if r and r[0] == 'func':
            return r[1]
        raise AnalysisBroken(f'{module}.{qual} not found')

    def cls(self, module, name):
        m = self.module(module)
        if name not in m.classes:
            r = self.resolve_name(m, name)
            if r and r[0] == 'class':
                return r[1]
            raise AnalysisBroken(f'class {module}.{name} not found')
        return m.classes[name]
