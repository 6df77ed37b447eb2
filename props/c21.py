RULE = """Every reference in the package to a function outside it is resolved through imports, star imports, aliases, local names,
getattr with a constant name and functools.partial.  None may be a function that writes, creates, deletes or renames files, runs
programs, evaluates text or unpickles bytes as code, or uses the network.  At every call that opens or maps a file (open, io.open,
codecs.open, os.open, zipfile, mmap ...) the mode is evaluated by constant propagation over local names, defaults, *args and
**kwargs and all call sites in the package: each value that reaches it must be a reading mode, each mapping ACCESS_READ."""
TECHNIQUE = 'effect analysis: resolution of all external references and interprocedural constant propagation of open modes'
import ast
import re
import builtins
from .common import *       # noqa

BAD = {}


def bad(mod, names, why):
    for n in names.split():
        BAD['%s.%s' % (mod, n) if mod else n] = why


bad('os', 'remove unlink rmdir removedirs', 'deletes files')
bad('os', 'rename renames replace link symlink', 'renames or links files')
bad('os', 'mkdir makedirs mkfifo mknod truncate ftruncate write writev pwrite chmod chown lchown fchmod utime', 'changes files')
bad('os', 'system popen startfile fork forkpty posix_spawn posix_spawnp kill killpg', 'runs or signals processes')
for _x in 'l le lp lpe v ve vp vpe'.split():
    bad('os', 'exec%s spawn%s' % (_x, _x), 'runs other programs')
bad('shutil', 'copy copy2 copyfile copyfileobj copymode copystat copytree move rmtree make_archive unpack_archive chown',
    'changes files')
bad('tempfile', 'mkstemp mkdtemp mktemp NamedTemporaryFile TemporaryFile SpooledTemporaryFile TemporaryDirectory', 'creates files')
bad('subprocess', 'run call check_call check_output Popen getoutput getstatusoutput', 'runs other programs')
bad('builtins', 'eval exec execfile', 'evaluates text as code')
for _m in ('pickle', 'cPickle', '_pickle', 'marshal', 'dill', 'joblib'):
    bad(_m, 'load loads Unpickler', 'evaluates bytes as objects')
    bad(_m, 'dump', 'writes files')
bad('shelve', 'open', 'opens a file for writing')
bad('dbm', 'open', 'opens a file')
bad('sqlite3', 'connect', 'creates files')
bad('numpy', 'save savez savez_compressed savetxt', 'writes files')
bad('code', 'InteractiveInterpreter InteractiveConsole interact', 'evaluates text as code')
bad('runpy', 'run_path run_module', 'evaluates text as code')
bad('logging', 'FileHandler', 'opens a file for writing')
bad('logging.handlers', 'RotatingFileHandler TimedRotatingFileHandler SocketHandler', 'opens a file or connection')
bad('pty', 'spawn', 'runs other programs')
NETS = ('socket', 'urllib.request', 'urllib2', 'http.client', 'httplib', 'ftplib', 'smtplib', 'telnetlib', 'xmlrpc', 'requests',
        'ssl', 'asyncio.open_connection', 'webbrowser', 'socketserver', 'multiprocessing')
METHODS = {'write_text': 'writes files', 'write_bytes': 'writes files', 'unlink': 'deletes files', 'rmdir': 'deletes directories',
           'mkdir': 'creates directories', 'touch': 'creates files', 'symlink_to': 'creates files', 'hardlink_to': 'creates files',
           'extractall': 'writes archive members to files', 'writestr': 'writes to an archive', 'tofile': 'writes files',
           'truncate': 'changes files'}
# open-like: name -> (position, keyword, default) of the mode
OPEN = {'builtins.open': (1, 'mode', 'r'), 'io.open': (1, 'mode', 'r'), 'io.FileIO': (1, 'mode', 'r'), 'codecs.open': (1, 'mode', 'r'),
        'os.fdopen': (1, 'mode', 'r'), 'gzip.open': (1, 'mode', 'rb'), 'gzip.GzipFile': (1, 'mode', 'rb'), 'bz2.open': (1, 'mode', 'rb'),
        'bz2.BZ2File': (1, 'mode', 'r'), 'lzma.open': (1, 'mode', 'rb'), 'tarfile.open': (1, 'mode', 'r'),
        'tarfile.TarFile': (1, 'mode', 'r'), 'zipfile.ZipFile': (1, 'mode', 'r'), 'numpy.memmap': (2, 'mode', 'r+'),
        'builtins.file': (1, 'mode', 'r'), 'pathlib.Path.open': (1, 'mode', 'r'), '_io.open': (1, 'mode', 'r')}
UNKNOWN = object()
FLAGS = ('O_WRONLY', 'O_RDWR', 'O_CREAT', 'O_APPEND', 'O_TRUNC', 'O_EXCL', 'O_TMPFILE')


class Scope(object):
    """a function (or module) body with its own names"""

    def __init__(self, mod, node, parent=None, fi=None):
        self.mod, self.node, self.parent, self.fi = mod, node, parent, fi
        self.names = {}             # name -> [expr or UNKNOWN]
        self.params = {}
        self.imports = {}
        self.glob = set()
        if fi is not None or isinstance(node, ast.Lambda):
            a = node.args
            pos = a.posonlyargs + a.args
            for x in pos + a.kwonlyargs:
                self.params[x.arg] = None
            for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
                self.params[x.arg] = d
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                self.params[x.arg] = d
            self.vararg = a.vararg.arg if a.vararg else None
            self.kwarg = a.kwarg.arg if a.kwarg else None
        else:
            self.vararg = self.kwarg = None

    def bind(self, t, v):
        if isinstance(t, ast.Name):
            self.names.setdefault(t.id, []).append(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else [UNKNOWN] * len(t.elts)
            for a, b in zip(t.elts, vs):
                self.bind(a, b)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, UNKNOWN)


class Analysis(object):
    def __init__(self, P, r):
        self.P, self.r = P, r
        self.active = set()
        self.scopes = []
        self.refs = []          # (scope, node) every Name/Attribute load and call
        self.calls = []         # (scope, call)
        self.subst = {}         # (scope, kwargs name) -> [(key, expr)]
        self.attrs = {}         # attribute name -> [(scope, expr)] assigned anywhere
        for n, m in sorted(P.modules.items()):
            if getattr(m, 'spec', False):
                continue
            self.module(m)
        self.sites = {}
        for sc, c in self.calls:
            for f in self.internal(c.func, sc):
                self.sites.setdefault(f, []).append((sc, c))

    # -- collection
    def module(self, m):
        sc = Scope(m, m.tree)
        self.scopes.append(sc)
        self.walk(m.tree.body, sc)

    def dead(self, s):
        t = s.test
        if isinstance(t, ast.Constant):
            return 'body' if not t.value else 'orelse'
        v = self.P._version_test(t)
        if v is not None:
            return 'orelse' if v else 'body'
        return None

    def walk(self, body, sc):
        for s in body:
            self.visit(s, sc)

    def visit(self, n, sc):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self.visit(d, sc)
            inner = Scope(sc.mod, n, sc, fi=n)
            self.scopes.append(inner)
            sc.names.setdefault(n.name, []).append(n)
            self.walk(n.body, inner)
            return
        if isinstance(n, ast.Lambda):
            inner = Scope(sc.mod, n, sc, fi=n)
            self.scopes.append(inner)
            self.visit(n.body, inner)
            return
        if isinstance(n, ast.ClassDef):
            for d in n.decorator_list + n.bases:
                self.visit(d, sc)
            sc.names.setdefault(n.name, []).append(n)
            inner = Scope(sc.mod, n, sc)
            inner.cls = n
            self.scopes.append(inner)
            self.walk(n.body, inner)
            return
        if isinstance(n, ast.If):
            d = self.dead(n)
            self.visit(n.test, sc)
            if d != 'body':
                self.walk(n.body, sc)
            if d != 'orelse':
                self.walk(n.orelse, sc)
            return
        if isinstance(n, ast.IfExp) and isinstance(n.test, ast.Constant):
            self.visit(n.body if n.test.value else n.orelse, sc)
            return
        if isinstance(n, ast.Import):
            for a in n.names:
                sc.imports[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            return
        if isinstance(n, ast.ImportFrom):
            base = self.P._from_base(sc.mod, n)
            for a in n.names:
                if a.name != '*':
                    sc.imports[a.asname or a.name] = '%s.%s' % (base, a.name)
                else:
                    sc.imports.setdefault('*', []).append(base)
            return
        if isinstance(n, ast.Global):
            sc.glob |= set(n.names)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                sc.bind(t, n.value)
                if isinstance(t, ast.Attribute):
                    self.attrs.setdefault(t.attr, []).append((sc, n.value))
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                    self.subst.setdefault((id(sc), t.value.id), []).append((t.slice, n.value))
        elif isinstance(n, ast.AnnAssign) and n.value is not None:
            sc.bind(n.target, n.value)
        elif isinstance(n, ast.AugAssign):
            sc.bind(n.target, ast.BinOp(n.target, n.op, n.value) if False else UNKNOWN)
        elif isinstance(n, (ast.For, ast.comprehension)):
            vals = n.iter.elts if isinstance(n.iter, (ast.Tuple, ast.List, ast.Set)) else [UNKNOWN]
            for v in vals:
                sc.bind(n.target, v)
        elif isinstance(n, ast.NamedExpr):
            sc.bind(n.target, n.value)
        elif isinstance(n, ast.withitem) and n.optional_vars is not None:
            sc.bind(n.optional_vars, UNKNOWN)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            sc.names.setdefault(n.name, []).append(UNKNOWN)
        if isinstance(n, ast.Call):
            self.calls.append((sc, n))
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
            self.refs.append((sc, n))
        for c in ast.iter_child_nodes(n):
            self.visit(c, sc)

    # -- resolution to dotted external names
    def ext(self, e, sc, depth=0):
        """set of dotted names the expression may be"""
        if depth > 8 or e is UNKNOWN or e is None:
            return set()
        if isinstance(e, ast.Name):
            return self.name(e.id, sc, depth)
        if isinstance(e, ast.Attribute):
            base = self.ext(e.value, sc, depth + 1)
            out = set()
            for b in base:
                if b.endswith('()'):
                    out.add(b + '.' + e.attr)
                    continue
                x = '%s.%s' % (b, e.attr)
                if b in self.P.modules:
                    out |= self.modname(b, e.attr, depth + 1)
                else:
                    out.add(x)
            if not base and e.attr in self.attrs and depth < 4:
                for s2, v in self.attrs[e.attr][:8]:
                    out |= {x for x in self.ext(v, s2, depth + 3)}
            return out
        if isinstance(e, ast.IfExp):
            return self.ext(e.body, sc, depth + 1) | self.ext(e.orelse, sc, depth + 1)
        if isinstance(e, ast.BoolOp):
            return set().union(*[self.ext(v, sc, depth + 1) for v in e.values])
        if isinstance(e, ast.Call):
            f = self.ext(e.func, sc, depth + 1)
            if 'builtins.getattr' in f and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
                return self.ext(ast.Attribute(e.args[0], str(e.args[1].value), ast.Load()), sc, depth + 1)
            if ('builtins.__import__' in f or 'importlib.import_module' in f) and e.args and isinstance(e.args[0], ast.Constant):
                return {str(e.args[0].value)}
            if 'functools.partial' in f and e.args:
                return self.ext(e.args[0], sc, depth + 1)
            return {x + '()' for x in f}
        return set()

    def name(self, n, sc, depth):
        s = sc
        while s is not None:
            if s is not sc and isinstance(s.node, ast.ClassDef):
                s = s.parent
                continue
            if n in s.glob:
                while s.parent is not None:
                    s = s.parent
            if n in s.params or n in (s.vararg, s.kwarg):
                d = s.params.get(n)
                return self.ext(d, s.parent, depth + 1) if d is not None else set()
            if n in s.names:
                out = set()
                for v in s.names[n]:
                    if isinstance(v, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                        continue
                    out |= self.ext(v, s, depth + 1)
                if n in s.imports:
                    out.add(s.imports[n])
                return out
            if n in s.imports:
                full = s.imports[n]
                return self.dotted(full, depth)
            last, s = s, s.parent
        return self.modname(sc.mod.name, n, depth, True)

    def dotted(self, full, depth):
        if full in self.P.modules:
            return {full}
        base, _, nm = full.rpartition('.')
        if base in self.P.modules:
            return self.modname(base, nm, depth + 1)
        return {full}

    def modname(self, modname, n, depth, builtin=False):
        for s in self.scopes:
            if s.parent is None and s.mod.name == modname:
                if n in s.names:
                    out = set()
                    for v in s.names[n]:
                        if not isinstance(v, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                            out |= self.ext(v, s, depth + 1)
                    return out
                if n in s.imports:
                    return self.dotted(s.imports[n], depth + 1)
                for base in s.imports.get('*', []):
                    if base in self.P.modules:
                        r = self.modname(base, n, depth + 1)
                        if r or self.defines(base, n):
                            return r
                break
        if '%s.%s' % (modname, n) in self.P.modules:
            return {'%s.%s' % (modname, n)}
        if builtin and (hasattr(builtins, n) or n in ('execfile', 'file')):
            return {'builtins.' + n}
        return set()

    def defines(self, modname, n):
        return self.P.resolve(modname, n) is not None

    # -- in-package call targets
    def internal(self, f, sc):
        """function nodes an in-package call may reach"""
        out = []
        if isinstance(f, ast.Name):
            s = sc
            while s is not None:
                if n_is(s, f.id):
                    for v in s.names[f.id]:
                        out += self.fnode(v)
                    return out
                s = s.parent
            x = self.P.resolve(sc.mod.name, f.id)
            if x and x[0] == 'func':
                return [x[1].node]
            if x and x[0] == 'class':
                return self.fnode(x[1].node)
        elif isinstance(f, ast.Attribute):
            for n, m in self.P.modules.items():
                for c in m.classes.values():
                    if f.attr in c.methods and (f.attr != '__init__' or isinstance(f.value, ast.Name) and f.value.id == c.name):
                        out.append(c.methods[f.attr].node)
                if isinstance(f.value, ast.Name) and f.attr in m.functions and n.split('.')[-1] == f.value.id:
                    out.append(m.functions[f.attr].node)
                if isinstance(f.value, ast.Name) and f.attr in m.classes and n.split('.')[-1] == f.value.id:
                    out += self.fnode(m.classes[f.attr].node)
        return out

    def fnode(self, v):
        if isinstance(v, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return [v]
        if isinstance(v, ast.ClassDef):
            return [x for x in v.body if isinstance(x, ast.FunctionDef) and x.name == '__init__']
        return []

    # -- constants
    def consts(self, e, sc, depth=0):
        """set of constants the expression may have; UNKNOWN among them when it is not followed"""
        if e is None or e is UNKNOWN or depth > 6:
            return {UNKNOWN}
        if isinstance(e, ast.Constant):
            return {e.value}
        if isinstance(e, ast.IfExp):
            if isinstance(e.test, ast.Constant):
                return self.consts(e.body if e.test.value else e.orelse, sc, depth + 1)
            return self.consts(e.body, sc, depth + 1) | self.consts(e.orelse, sc, depth + 1)
        if isinstance(e, ast.BoolOp):
            return set().union(*[self.consts(v, sc, depth + 1) for v in e.values])
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.consts(e.left, sc, depth + 1), self.consts(e.right, sc, depth + 1)
            return {x + y if isinstance(x, str) and isinstance(y, str) else UNKNOWN for x in a for y in b}
        if isinstance(e, ast.Name):
            s = sc
            while s is not None:
                if e.id in s.names:
                    out = set()
                    if e.id in s.params:
                        out |= self.param(s, e.id, depth + 1)
                    for v in s.names[e.id]:
                        out |= self.consts(v, s, depth + 1) if isinstance(v, ast.expr) else {UNKNOWN}
                    return out
                if e.id in s.params:
                    return self.param(s, e.id, depth + 1)
                s = s.parent
            x = self.P.resolve(sc.mod.name, e.id)
            if x and x[0] == 'assign':
                return set().union(*[self.consts(v, sc, depth + 1) for v in x[2]])
        if isinstance(e, ast.Attribute):
            if e.attr in self.attrs:
                return set().union(*[self.consts(v, s, depth + 2) for s, v in self.attrs[e.attr]])
        return {UNKNOWN}

    def param(self, s, name, depth):
        """values of a parameter over all call sites in the package"""
        out = set()
        d = s.params.get(name)
        a = s.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        sites = self.sites.get(s.node, []) if hasattr(self, 'sites') else []
        method = bool(pos) and s.parent is not None and isinstance(s.parent.node, ast.ClassDef)
        for sc, c in sites:
            v = UNKNOWN
            if any(isinstance(x, ast.Starred) for x in c.args) or any(k.arg is None for k in c.keywords):
                v = UNKNOWN
            kw = [k.value for k in c.keywords if k.arg == name]
            i = pos.index(name) - method if name in pos else None
            if kw:
                out |= self.consts(kw[0], sc, depth + 1)
            elif i is not None and i < len(c.args) and not any(isinstance(x, ast.Starred) for x in c.args[:i + 1]):
                out |= self.consts(c.args[i], sc, depth + 1)
            elif any(isinstance(x, ast.Starred) for x in c.args) or any(k.arg is None for k in c.keywords):
                out.add(UNKNOWN)
            elif d is not None:
                out |= self.consts(d, s.parent, depth + 1)
        if not sites:
            out |= self.consts(d, s.parent, depth + 1) if d is not None else {UNKNOWN}
        elif d is not None:
            out |= self.consts(d, s.parent, depth + 1)
        return out

    def argument(self, sc, c, pos, key, default):
        """constants of one argument of a call"""
        for k in c.keywords:
            if k.arg == key:
                return self.consts(k.value, sc)
        out = set()
        n = 0
        for a in c.args:
            if isinstance(a, ast.Starred):
                out |= self.star(sc, a.value, pos - n, default)
                break
            if n == pos:
                return self.consts(a, sc)
            n += 1
        for k in c.keywords:
            if k.arg is None:
                out |= self.starstar(sc, k.value, key, default)
        return out or {default}

    def owner(self, sc, name, what):
        while sc is not None:
            if getattr(sc, what) == name:
                return sc
            sc = sc.parent
        return None

    def star(self, *a):
        return self.guard(self._star, *a)

    def starstar(self, *a):
        return self.guard(self._starstar, *a)

    def guard(self, f, sc, e, *a):
        k = (f.__name__, id(sc), id(e)) + a
        if k in self.active or len(self.active) > 40:
            return {UNKNOWN}
        self.active.add(k)
        try:
            return f(sc, e, *a)
        finally:
            self.active.discard(k)

    def _star(self, sc, e, i, default):
        if isinstance(e, (ast.Tuple, ast.List)):
            return self.consts(e.elts[i], sc) if i < len(e.elts) else {default}
        s = self.owner(sc, e.id, 'vararg') if isinstance(e, ast.Name) else None
        if s is None or e.id in s.names:
            return {UNKNOWN}
        a = s.node.args
        method = s.parent is not None and isinstance(s.parent.node, ast.ClassDef)
        k = len(a.posonlyargs + a.args) - method + i
        out = set()
        for sc2, c in self.sites.get(s.node, []):
            if any(isinstance(x, ast.Starred) for x in c.args[:k + 1]):
                out.add(UNKNOWN)
            elif k < len(c.args):
                out |= self.consts(c.args[k], sc2)
            else:
                out.add(default)
        return out or {default}

    def _starstar(self, sc, e, key, default):
        if isinstance(e, ast.Dict):
            out = set()
            for k, v in zip(e.keys, e.values):
                if k is None:
                    out |= self.starstar(sc, v, key, default)
                elif isinstance(k, ast.Constant) and k.value == key:
                    return self.consts(v, sc)
            return out or {default}
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'dict':
            for k in e.keywords:
                if k.arg == key:
                    return self.consts(k.value, sc)
            return self.starstar(sc, e.args[0], key, default) if e.args else {default}
        if not isinstance(e, ast.Name):
            return {UNKNOWN}
        out = set()
        s = self.owner(sc, e.id, 'kwarg')
        home = s
        if s is not None:
            for sc2, c in self.sites.get(s.node, []):
                ks = [k for k in c.keywords if k.arg == key]
                if ks:
                    out |= self.consts(ks[0].value, sc2)
                elif any(k.arg is None for k in c.keywords):
                    out |= set().union(*[self.starstar(sc2, k.value, key, default) for k in c.keywords if k.arg is None])
                else:
                    out.add(default)
        else:
            t = sc
            while t is not None and e.id not in t.names:
                t = t.parent
            home = t
            if t is None:
                return {UNKNOWN}
            for v in t.names[e.id]:
                out |= self.starstar(t, v, key, default) if isinstance(v, (ast.Dict, ast.Call)) else {UNKNOWN}
        for sl, v in self.subst.get((id(home), e.id), []):
            if isinstance(sl, ast.Constant) and sl.value == key:
                out |= self.consts(v, home)
        for sc2, c in self.calls:
            if sc2 is home and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == e.id:
                if c.func.attr == 'setdefault' and len(c.args) == 2 and isinstance(c.args[0], ast.Constant) and c.args[0].value == key:
                    out |= self.consts(c.args[1], home)
                if c.func.attr == 'update':
                    for k in c.keywords:
                        if k.arg == key:
                            out |= self.consts(k.value, home)
        return out or {default}


def n_is(s, n):
    return n in s.names and any(isinstance(v, (ast.FunctionDef, ast.ClassDef)) for v in s.names[n])


def fname(sc):
    while sc is not None and not isinstance(sc.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        sc = sc.parent
    return sc.node.name if sc is not None else 'the module'


def check(P, r):
    with r.obligation('references'):
        A = Analysis(P, r)
        for s in A.scopes:
            if isinstance(s.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                r.functions.add('%s.%s' % (s.mod.name, s.node.name))
        funcs_called = {id(c.func) for _, c in A.calls}
        for m in sorted({s.mod.name for s in A.scopes}):
            n0 = len(r.violations)
            for sc, n in A.refs:
                if sc.mod.name == m:
                    r.count('references')
                    reference(A, r, sc, n, funcs_called)
            if len(r.violations) == n0:
                r.ok('references of ' + m)
    with r.obligation('opens'):
        n = 0
        for sc, c in A.calls:
            n += call(A, r, sc, c)
        r.count('open and map sites', n)
        if not n:
            r.undecided('opens', 'no call that opens a file is found')


def reference(A, r, sc, n, called):
    names = A.ext(n, sc)
    where = '%s:%d' % (sc.mod.rel, n.lineno)
    for x in names:
        x = canon(x)
        if x in BAD:
            r.viol('%s in %s' % (x, fname(sc)), '%s uses %s, which %s' % (fname(sc), x, BAD[x]), where=where)
            return
        if id(n) in called and any(x == k or x.startswith(k + '.') for k in NETS):
            r.viol('%s in %s' % (x, fname(sc)), '%s calls %s, which reaches out of the process' % (fname(sc), x), where=where)
            return


def canon(x):
    for a, b in (('np.', 'numpy.'), ('posix.', 'os.'), ('nt.', 'os.'), ('__builtin__.', 'builtins.')):
        if x.startswith(a):
            x = b + x[len(a):]
    return x


MODE = re.compile(r'^[rwaxbtU+]{1,4}$')


def call(A, r, sc, c):
    names = {canon(x) for x in A.ext(c.func, sc)}
    where = '%s:%d' % (sc.mod.rel, c.lineno)
    fn = fname(sc)
    hit = 0
    part = None
    for x in sorted(names):
        if x in OPEN:
            hit = 1
            pos, key, default = OPEN[x]
            vals = A.argument(sc, c, pos, key, default)
            name = '%s in %s' % (x, fn)
            wrong = sorted(v for v in vals if isinstance(v, str) and set(v) & set('wax+'))
            if wrong:
                r.viol(name, '%s: %s is called with mode %r' % (fn, x, wrong[0]), where=where)
            elif UNKNOWN in vals or any(not isinstance(v, str) for v in vals):
                r.undecided(name, 'the mode is not followed')
            else:
                r.ok(name, 'modes %s' % ', '.join(sorted(vals)))
        elif x == 'os.open':
            hit = 1
            t = ast.unparse(c)
            if any(f in t for f in FLAGS):
                r.viol('os.open in ' + fn, '%s: os.open with flags for writing' % fn, where=where)
            else:
                r.undecided('os.open in ' + fn, 'flags')
        elif x in ('mmap.mmap',):
            hit = 1
            acc = [k.value for k in c.keywords if k.arg == 'access']
            prot = [k.value for k in c.keywords if k.arg == 'prot']
            a = A.ext(acc[0], sc) if acc else set()
            p = A.ext(prot[0], sc) if prot else set()
            if any(k.arg is None for k in c.keywords) or any(isinstance(y, ast.Starred) for y in c.args):
                r.undecided('mmap in ' + fn, 'arguments')
            elif a == {'mmap.ACCESS_READ'} or acc and A.consts(acc[0], sc) == {1} or not acc and p == {'mmap.PROT_READ'}:
                r.ok('mmap in ' + fn)
            elif any(y in ('mmap.ACCESS_WRITE', 'mmap.ACCESS_COPY', 'mmap.ACCESS_DEFAULT') for y in a) or not acc and not prot \
                    and len(c.args) <= 2:
                r.viol('mmap in ' + fn, '%s: a file is mapped without ACCESS_READ' % fn, where=where)
            else:
                r.undecided('mmap in ' + fn, 'access is not followed')
        elif x == 'numpy.load' and any(k.arg == 'allow_pickle' and True in A.consts(k.value, sc) for k in c.keywords):
            r.viol('numpy.load in ' + fn, '%s: numpy.load with allow_pickle evaluates objects from a file' % fn, where=where)
        elif x in ('logging.basicConfig',) and any(k.arg == 'filename' for k in c.keywords):
            r.viol('logging in ' + fn, '%s: logging.basicConfig opens a file for writing' % fn, where=where)
        elif x == 'fileinput.input' and any(k.arg == 'inplace' for k in c.keywords):
            r.viol('fileinput in ' + fn, '%s: fileinput with inplace rewrites files' % fn, where=where)
    if isinstance(c.func, ast.Attribute) and not hit:
        a = c.func.attr
        own = any(a in ci.methods for m in A.P.modules.values() for ci in m.classes.values())
        if a in METHODS and not own:
            r.viol('%s in %s' % (a, fn), '%s: .%s() %s' % (fn, a, METHODS[a]), where=where)
        elif a == 'extract' and not own:
            r.viol('extract in ' + fn, '%s: .extract() writes an archive member to a file' % fn, where=where)
        elif a == 'open' and not own:
            vals = set()
            for e in list(c.args) + [k.value for k in c.keywords if k.arg == 'mode']:
                vals |= {v for v in A.consts(e, sc) if isinstance(v, str) and MODE.match(v)}
            if any(set(v) & set('wax+') for v in vals):
                r.viol('open method in ' + fn, '%s: .open() with mode %r' % (fn, sorted(vals)[0]), where=where)
            hit = 1
        elif a in ('rename', 'replace') and any(x.startswith('pathlib.') for x in A.ext(c.func.value, sc)):
            r.viol('%s in %s' % (a, fn), '%s: a path is renamed' % fn, where=where)
    return hit
