"""Parsed program: modules, functions, classes and name resolution."""
import ast
import sys
import os
import hashlib


class AnalysisError(Exception):
    """The analysis cannot be carried out (missing anchor, unreadable source)."""


class FuncInfo(object):
    def __init__(self, node, mod, qual, cls=None):
        self.node, self.mod, self.qual, self.cls = node, mod, qual, cls
        self.is_gen = False
        if not isinstance(node, ast.Lambda):
            self.is_gen = has_yield(node)
        decos = getattr(node, 'decorator_list', [])
        names = [d.id for d in decos if isinstance(d, ast.Name)]
        self.static = 'staticmethod' in names
        self.classm = 'classmethod' in names
        self.prop = 'property' in names
        self.otherdeco = [d for d in decos if not (isinstance(d, ast.Name) and d.id in (
            'staticmethod', 'classmethod', 'property'))]

    @property
    def where(self):
        return '%s:%d' % (self.mod.rel, self.node.lineno)


def has_yield(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class ClassInfo(object):
    def __init__(self, node, mod, qual):
        self.node, self.mod, self.qual, self.name = node, mod, qual, node.name
        self.methods = {}
        self.setters = {}
        self.attrs = {}         # name -> expression node
        self.aliases = {}

    def __repr__(self):
        return '<ClassInfo %s>' % self.qual


class Module(object):
    def __init__(self, name, path, rel, tree, src):
        self.name, self.path, self.rel, self.tree, self.src = name, path, rel, tree, src
        self.functions, self.classes, self.assigns, self.imports = {}, {}, {}, {}
        self.is_pkg = os.path.basename(path) == '__init__.py'


class Project(object):
    def __init__(self, root='/repo', package='channelpack'):
        self.root = root
        self.modules = {}
        self.classes = {}
        self.functions = []
        base = os.path.join(root, package)
        if not os.path.isdir(base):
            raise AnalysisError('package directory %s is missing' % base)
        for dirpath, dirs, files in sorted(os.walk(base)):
            dirs[:] = sorted(d for d in dirs if not d.startswith(('.', '__pycache__')))
            for fn in sorted(files):
                if not fn.endswith('.py'):
                    continue
                path = os.path.join(dirpath, fn)
                rel = os.path.relpath(path, root)
                name = rel[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-len('.__init__')]
                with open(path, encoding='utf-8') as f:
                    src = f.read()
                try:
                    tree = ast.parse(src, path)
                except SyntaxError as e:
                    raise AnalysisError('cannot parse %s: %s' % (rel, e))
                self.modules[name] = Module(name, path, rel, tree, src)
        for m in self.modules.values():
            self._index(m)

    def add_source(self, name, src):
        """A harness or specification module analysed together with the program."""
        m = Module(name, name + '.py', '<%s>' % name, ast.parse(src), src)
        self.modules[name] = m
        self._index(m)
        m.spec = True
        return m

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            if getattr(self.modules[n], 'spec', False):
                continue
            h.update(n.encode())
            h.update(self.modules[n].src.encode())
        return h.hexdigest()[:16]

    def _version_test(self, t):
        """value of a comparison of the python version with a constant, or None"""
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.GtE, ast.Gt, ast.Lt, ast.LtE))):
            return None
        left = ast.unparse(t.left)
        if left.split('[')[0] not in ('python_version', 'sys.version_info', 'version_info'):
            return None
        try:
            right = ast.literal_eval(t.comparators[0])
        except ValueError:
            return None
        v = (3, 12)
        if isinstance(right, int):
            v, right = 3, right
        elif not isinstance(right, tuple):
            return None
        op = t.ops[0]
        return {ast.GtE: v >= right, ast.Gt: v > right, ast.Lt: v < right, ast.LtE: v <= right}[type(op)]

    @staticmethod
    def _available(s, h):
        """handler for the absence of a module that is always there"""
        if not (isinstance(h.type, ast.Name) and h.type.id in ('ImportError', 'ModuleNotFoundError')):
            return False
        imps = [n for x in s.body for n in ast.walk(x) if isinstance(n, (ast.Import, ast.ImportFrom))]
        return bool(imps) and all(isinstance(n, ast.Import) and all(a.name in sys.stdlib_module_names for a in n.names)
                                  for n in imps)

    def _index(self, m):
        def stmts(body):
            for s in body:
                yield s
                if isinstance(s, ast.If) and self._version_test(s.test) is not None:
                    for x in stmts(s.body if self._version_test(s.test) else s.orelse):
                        yield x
                    continue
                if isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                    for fld in ('body', 'orelse', 'finalbody'):
                        for x in stmts(getattr(s, fld, []) or []):
                            yield x
                    for h in getattr(s, 'handlers', []) or []:
                        if self._available(s, h):
                            continue
                        for x in stmts(h.body):
                            yield x
        for s in stmts(m.tree.body):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(s, m, m.name + '.' + s.name)
                m.functions[s.name] = fi
                self.functions.append(fi)
            elif isinstance(s, ast.ClassDef):
                ci = ClassInfo(s, m, m.name + '.' + s.name)
                m.classes[s.name] = ci
                self.classes[ci.qual] = ci
                for b in stmts(s.body):
                    if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        fi = FuncInfo(b, m, ci.qual + '.' + b.name, ci)
                        deco = [d.attr for d in b.decorator_list if isinstance(d, ast.Attribute)]
                        if 'setter' in deco:
                            fi.otherdeco = []
                            ci.setters[b.name] = fi
                        elif 'deleter' in deco:
                            fi.otherdeco = []
                        else:
                            ci.methods[b.name] = fi
                        self.functions.append(fi)
                    elif isinstance(b, ast.Assign):
                        for t in b.targets:
                            if isinstance(t, ast.Name):
                                ci.attrs[t.id] = b.value
                    elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name) and b.value:
                        ci.attrs[b.target.id] = b.value
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    self._bind(m, t, s.value)
            elif isinstance(s, ast.AnnAssign) and s.value is not None:
                self._bind(m, s.target, s.value)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        m.imports[a.asname] = ('mod', a.name)
                    else:
                        m.imports[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                base = self._from_base(m, s)
                for a in s.names:
                    if a.name == '*':
                        m.imports.setdefault('*', []).append(base)
                    else:
                        m.imports[a.asname or a.name] = ('from', base, a.name)

    def _from_base(self, m, s):
        if not s.level:
            return s.module
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (s.level - 1)]
        return '.'.join(parts + ([s.module] if s.module else []))

    def _bind(self, m, t, value):
        if isinstance(t, ast.Name):
            m.assigns.setdefault(t.id, []).append(value)
        elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(value, (ast.Tuple, ast.List)) \
                and len(t.elts) == len(value.elts):
            for a, b in zip(t.elts, value.elts):
                self._bind(m, a, b)
        elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(value, ast.Call) and \
                isinstance(value.func, ast.Name) and value.func.id in ('range', 'xrange') and len(value.args) == 1 and \
                isinstance(value.args[0], ast.Constant) and value.args[0].value == len(t.elts):
            for i, a in enumerate(t.elts):
                self._bind(m, a, ast.copy_location(ast.Constant(i), value))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for a in t.elts:
                if isinstance(a, ast.Name):
                    m.assigns.setdefault(a.id, []).append(None)

    # -- resolution of a global name: returns ('func', fi) | ('class', ci) |
    #    ('assign', mod, [nodes]) | ('module', name) | ('ext', dotted) | None
    def resolve(self, modname, name, seen=()):
        m = self.modules.get(modname)
        if m is None or (modname, name) in seen:
            return None
        seen = seen + ((modname, name),)
        if name in m.functions:
            return ('func', m.functions[name])
        if name in m.classes:
            return ('class', m.classes[name])
        if name in m.assigns:
            return ('assign', m, m.assigns[name])
        if name in m.imports and name != '*':
            imp = m.imports[name]
            if imp[0] == 'mod':
                return ('module', imp[1]) if imp[1] in self.modules else ('ext', imp[1])
            base, nm = imp[1], imp[2]
            if base + '.' + nm in self.modules:
                return ('module', base + '.' + nm)
            if base in self.modules:
                return self.resolve(base, nm, seen)
            return ('ext', base + '.' + nm)
        for base in m.imports.get('*', []):
            r = self.resolve(base, name, seen)
            if r:
                return r
        if modname + '.' + name in self.modules:
            return ('module', modname + '.' + name)
        return None

    def func(self, qual):
        """FuncInfo of a public anchor 'module.func' or 'module.Class.method'."""
        modname, _, name = qual.rpartition('.')
        if modname in self.modules:
            r = self.resolve(modname, name)
            if r and r[0] == 'func':
                return r[1]
        else:
            m2, _, cname = modname.rpartition('.')
            if m2 in self.modules:
                r = self.resolve(m2, cname)
                if r and r[0] == 'class':
                    fi = self.find_method(r[1], name)
                    if fi:
                        return fi
        raise AnalysisError('anchor %s is missing' % qual)

    def cls(self, qual):
        modname, _, name = qual.rpartition('.')
        if modname in self.modules:
            r = self.resolve(modname, name)
            if r and r[0] == 'class':
                return r[1]
        raise AnalysisError('anchor class %s is missing' % qual)

    def bases(self, ci):
        out = []
        for b in ci.node.bases:
            if isinstance(b, ast.Name):
                r = self.resolve(ci.mod.name, b.id)
                if r and r[0] == 'class':
                    out.append(r[1])
                elif r and r[0] == 'ext':
                    out.append(r[1])
                elif r is None:
                    out.append('builtins.' + b.id)
                else:
                    out.append('?')
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                r = self.resolve(ci.mod.name, b.value.id)
                if r and r[0] == 'module':
                    r2 = self.resolve(r[1], b.attr)
                    out.append(r2[1] if r2 and r2[0] == 'class' else '?')
                elif r and r[0] == 'ext':
                    out.append(r[1] + '.' + b.attr)
                else:
                    out.append('?')
            else:
                out.append('?')
        return out

    def mro(self, ci):
        """Linearised list of ClassInfo and dotted external names (simple DFS)."""
        out = [ci]
        for b in self.bases(ci):
            for x in (self.mro(b) if isinstance(b, ClassInfo) else [b]):
                if x in out:
                    out.remove(x)
                out.append(x)
        return out

    def find_method(self, ci, name):
        for c in self.mro(ci):
            if isinstance(c, ClassInfo) and name in c.methods:
                return c.methods[name]
        return None
