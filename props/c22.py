RULE = """All module level containers (displays, comprehensions, container constructors, iterators, numpy arrays), class level
containers and mutable default arguments of the package are the shared objects.  A flow sensitive alias analysis of every function
(locals, conditional expressions, elements, loop variables, attributes an alias is stored in, values returned by and passed to
package functions, by summaries) follows them to every operation that changes a container in place.  None may reach a shared
object outside import time, no function may rebind a module global or an attribute of a class, and a container that a class body
gives as a default may be changed through an instance only where the constructor has replaced it on every path."""
TECHNIQUE = 'flow-sensitive alias and effect analysis with function summaries over all functions of the package'
import ast
from .common import *       # noqa
from pyflow.project import FuncInfo

MUT = set('''append extend insert pop remove clear update setdefault add discard popitem sort reverse appendleft popleft
extendleft rotate intersection_update difference_update symmetric_difference_update __setitem__ __delitem__ move_to_end
fill put itemset resize subtract'''.split())
CTORS = set('''list dict set bytearray defaultdict OrderedDict Counter deque array zeros ones empty full arange count cycle iter
ChainMap IntKeyDict NpDict'''.split())
COPY = {'list', 'dict', 'set', 'tuple', 'sorted', 'OrderedDict', 'copy', 'reversed', 'frozenset', 'iter', 'enumerate', 'zip', 'defaultdict'}
ELEM = {'get', 'setdefault', 'pop', 'popitem', '__getitem__'}
ITEMS = {'values', 'items', 'keys'}
FIRST = {'heappush', 'heappop', 'heapify', 'shuffle', 'insort', 'insort_left', 'insort_right', 'next', 'setattr', 'delattr'}
EMPTY = frozenset()


def container(e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)):
        return True
    if isinstance(e, ast.Call):
        f = e.func
        n = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
        return n in CTORS
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Mult)):
        return container(e.left) or container(e.right)
    return False


def inner_mutable(e):
    """the container may hold containers"""
    return any(x is not e and container(x) for x in ast.walk(e)) or not isinstance(e, (ast.List, ast.Dict, ast.Set))


class Fun(object):
    def __init__(self, fi, mod, cls, node):
        self.fi, self.mod, self.cls, self.node = fi, mod, cls, node
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        self.npos = len(a.posonlyargs + a.args)
        pos = a.posonlyargs + a.args
        self.defaults = {x.arg: d for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults)}
        self.defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        self.vararg, self.kwarg = a.vararg and a.vararg.arg, a.kwarg and a.kwarg.arg
        self.stored = {n.id for n in own_walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
        self.globs = {x for n in own_walk(node) if isinstance(n, ast.Global) for x in n.names}
        self.mutates = {}       # parameter -> description
        self.returns = set()    # values: roots and ('P', name)
        self.qual = fi.qual


def own_walk(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class A(object):
    def __init__(self, P, r):
        self.P, self.r = P, r
        self.funs = []
        self.bynode = {}
        self.byname = {}
        self.glob = {}          # (mod, name) -> expr
        self.clsattr = {}       # (class qual, name) -> expr
        self.attralias = {}     # (class qual or None, attr) -> set of values
        self.attrassign = {}    # attr -> list of (fun, fresh?)
        self.events = {}        # key -> (fun, node, text, sure)
        for n, m in sorted(P.modules.items()):
            if getattr(m, 'spec', False):
                continue
            for name, vals in m.assigns.items():
                vals = [v for v in vals if isinstance(v, ast.expr)]
                if vals and any(container(v) for v in vals):
                    self.glob[(n, name)] = [v for v in vals if container(v)][-1]
            for c in m.classes.values():
                for name, v in c.attrs.items():
                    if isinstance(v, ast.expr) and container(v) and not name.startswith('__'):
                        self.clsattr[(c.qual, name)] = v
        for fi in P.functions:
            if getattr(fi.mod, 'spec', False) or isinstance(fi.node, ast.Lambda):
                continue
            f = Fun(fi, fi.mod, fi.cls, fi.node)
            self.funs.append(f)
            self.bynode[fi.node] = f
            self.byname.setdefault(fi.node.name, []).append(f)
        self.outer = {}
        todo = list(self.funs)
        while todo:
            f = todo.pop()
            for n in own_walk(f.node):
                if isinstance(n, ast.FunctionDef):
                    self.outer[n] = f
                    if n not in self.bynode:
                        g = Fun(FuncInfo(n, f.mod, f.qual + '.' + n.name), f.mod, None, n)
                        self.funs.append(g)
                        self.bynode[n] = g
                        todo.append(g)
        self.import_only()

    def import_only(self):
        """functions used by module level code only"""
        inside = set()
        for f in self.funs:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Name) and n is not f.node:
                    inside.add(n.id)
                if isinstance(n, ast.Attribute):
                    inside.add(n.attr)
        top = set()
        for n, m in self.P.modules.items():
            if getattr(m, 'spec', False):
                continue
            for s in m.tree.body:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    continue
                for x in ast.walk(s):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
                        top.add(x.func.id)
        self.importfuns = {f for f in self.funs if f.cls is None and f.node.name in top and f.node.name not in inside}

    # ------------------------------------------------------------------ values
    def value(self, e, env, f):
        """set of (kind, root): kind 'o' the object, 'e' an element of it, 'c' a shallow copy"""
        if e is None:
            return EMPTY
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if e.id in f.params or e.id in f.stored and e.id not in f.globs:
                return EMPTY
            o = self.outer.get(f.node)
            while o is not None:
                if e.id in o.params and e.id not in o.stored:
                    d = o.defaults.get(e.id)
                    return frozenset([('o', ('D', o.qual, e.id))]) if d is not None and container(d) else EMPTY
                if e.id in o.params or e.id in o.stored:
                    return EMPTY
                o = self.outer.get(o.node)
            return self.globname(f.mod.name, e.id)
        if isinstance(e, ast.Attribute):
            k = dotted(e)
            if k and k in env:
                return env[k]
            return self.attribute(e, env, f)
        if isinstance(e, ast.Subscript):
            v = self.value(e.value, env, f)
            if isinstance(e.slice, ast.Slice):
                return frozenset(('c', r) for k, r in v)
            return elems(v)
        if isinstance(e, ast.IfExp):
            return self.value(e.body, env, f) | self.value(e.orelse, env, f)
        if isinstance(e, ast.BoolOp):
            return frozenset().union(*[self.value(v, env, f) for v in e.values])
        if isinstance(e, ast.NamedExpr):
            return self.value(e.value, env, f)
        if isinstance(e, ast.Starred):
            return self.value(e.value, env, f)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            out = set()
            for x in e.elts:
                out |= {('h', r) for k, r in self.value(x, env, f) if k == 'o'} | {
                    ('c', r) for k, r in self.value(x, env, f) if k == 'e'}
            return frozenset(out)
        if isinstance(e, ast.Dict):
            out = set()
            for x in e.values:
                v = self.value(x, env, f)
                out |= {('h', r) for k, r in v if k == 'o'} | {('c', r) for k, r in v if k == 'e'}
            return frozenset(out)
        if isinstance(e, ast.Call):
            return self.callvalue(e, env, f)
        return EMPTY

    def globname(self, mod, name):
        x = self.P.resolve(mod, name)
        if x and x[0] == 'assign' and (x[1].name, self.assigned_name(x, name)) in self.glob:
            return frozenset([('o', ('G', x[1].name, self.assigned_name(x, name)))])
        if x and x[0] == 'class':
            return frozenset([('k', ('K', x[1].qual))])
        return EMPTY

    def assigned_name(self, x, name):
        if (x[1].name, name) in self.glob:
            return name
        for n, vals in x[1].assigns.items():
            if vals is x[2]:
                return n
        return name

    def attribute(self, e, env, f):
        base = e.value
        out = set()
        bv = self.value(base, env, f)
        for k, r in bv:
            if k == 'k':
                for c in self.mro(r[1]):
                    if (c, e.attr) in self.clsattr:
                        return frozenset([('o', ('C', c, e.attr))])
        if isinstance(base, ast.Name):
            x = self.P.resolve(f.mod.name, base.id) if base.id not in f.params and base.id not in f.stored else None
            if x and x[0] == 'module':
                return self.globname(x[1], e.attr)
        cls = None
        if isinstance(base, ast.Name) and f.cls is not None and f.params and base.id == f.params[0] and not f.fi.static:
            cls = f.cls.qual
            for c in self.mro(cls):
                out |= self.attralias.get((c, e.attr), set())
                if (c, e.attr) in self.clsattr:
                    out.add(('o' if not self.shadowed(c, e.attr, cls) else 'x', ('C', c, e.attr)))
            for c in self.subs(cls):
                out |= self.attralias.get((c, e.attr), set())
        else:
            al = self.attralias.get((None, e.attr), set())
            ass = self.attrassign.get(e.attr, [])
            if al and all(not fresh for _, fresh in ass):
                out |= al
            cands = [k for k in self.clsattr if k[1] == e.attr]
            if cands and not ass and not any(self.shadowed(k[0], e.attr, k[0]) for k in cands):
                out |= {('o', ('C',) + k) for k in cands[:1]}
            elif len(cands) == 1 and not self.shadowed(cands[0][0], e.attr, cands[0][0]):
                out |= {('o', ('C',) + cands[0])}
        return frozenset((k, r) for k, r in out if k != 'x')

    def mro(self, qual):
        for m in self.P.modules.values():
            for c in m.classes.values():
                if c.qual == qual:
                    try:
                        return [x.qual for x in self.P.mro(c) if hasattr(x, 'qual')]
                    except Exception:
                        return [qual]
        return [qual]

    def subs(self, qual):
        out = []
        for m in self.P.modules.values():
            for c in m.classes.values():
                if c.qual != qual and qual in self.mro(c.qual):
                    out.append(c.qual)
        return out

    def shadowed(self, c, attr, cls):
        """an instance gets its own value in the constructor on every path, or we cannot tell"""
        key = (c, attr, cls)
        if key not in self.shadow:
            self.shadow[key] = self._shadowed(c, attr, cls)
        return self.shadow[key]

    shadow = {}

    def _shadowed(self, c, attr, cls):
        for q in [cls] + self.subs(cls):
            ci = self.clsinfo(q)
            init = None
            try:
                init = self.P.find_method(ci, '__init__')
            except Exception:
                pass
            if init is not None and hasattr(init, 'node') and self.must_assign(init.node, attr, q):
                return True
        # assigned outside of the constructor only: is it ever before the change?  not decided here
        inits = self.init_closure(cls)
        return any(fn.node not in inits for fn, fresh in self.attrassign.get(attr, []))

    def init_closure(self, cls):
        ci = self.clsinfo(cls)
        try:
            init = self.P.find_method(ci, '__init__')
        except Exception:
            init = None
        return {init.node} if init is not None and hasattr(init, 'node') else set()

    def clsinfo(self, q):
        for m in self.P.modules.values():
            for c in m.classes.values():
                if c.qual == q:
                    return c

    def must_assign(self, node, attr, cls, depth=0):
        """every path through the function to its end assigns <first parameter>.attr"""
        if depth > 4 or not node.args.args:
            return False
        me = node.args.args[0].arg

        def stmts(body):
            for s in body:
                if one(s):
                    return True
            return False

        def calls(e):
            for c in ast.walk(e):
                if not isinstance(c, ast.Call):
                    continue
                fn = c.func
                if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == me:
                    ci = self.clsinfo(cls)
                    t = None
                    try:
                        t = self.P.find_method(ci, fn.attr)
                    except Exception:
                        pass
                    cand = [t.node] if t is not None and hasattr(t, 'node') else [
                        g.node for g in self.byname.get(fn.attr, []) if g.cls is None]
                    if any(self.must_assign(n, attr, cls, depth + 1) for n in cand):
                        return True
                elif isinstance(fn, ast.Attribute) and fn.attr == '__init__':
                    for q in self.mro(cls)[1:]:
                        ci = self.clsinfo(q)
                        if ci is not None and '__init__' in ci.methods and self.must_assign(
                                ci.methods['__init__'].node, attr, cls, depth + 1):
                            return True
                elif isinstance(fn, ast.Name) and c.args and isinstance(c.args[0], ast.Name) and c.args[0].id == me:
                    if fn.id == 'setattr':
                        if len(c.args) > 1 and (not isinstance(c.args[1], ast.Constant) or c.args[1].value == attr):
                            return True
                    elif any(self.must_assign(g.node, attr, cls, depth + 1) for g in self.byname.get(fn.id, [])):
                        return True
                elif isinstance(fn, ast.Attribute) and fn.attr in ('update', '__setattr__', 'setattr'):
                    t = ast.unparse(c)
                    if '__dict__' in t or fn.attr != 'update':
                        return True
            return False

        def one(s):
            if isinstance(s, (ast.Return, ast.Raise)):
                return isinstance(s, ast.Raise) or False
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == attr and isinstance(
                                x.value, ast.Name) and x.value.id == me:
                            return True
                        if isinstance(x, ast.Subscript) and '__dict__' in ast.unparse(x):
                            return True
                return calls(s.value)
            if isinstance(s, ast.AnnAssign):
                return isinstance(s.target, ast.Attribute) and s.target.attr == attr and s.value is not None
            if isinstance(s, ast.If):
                return calls(s.test) or stmts(s.body) and stmts(s.orelse)
            if isinstance(s, ast.With):
                return stmts(s.body)
            if isinstance(s, ast.Try):
                return stmts(s.finalbody) or stmts(s.body) and all(stmts(h.body) for h in s.handlers) or (
                    stmts(s.body[:1]))
            if isinstance(s, (ast.For, ast.While)):
                # a loop over the names to set: for attr, v in OPTIONS: setattr(self, attr, v)
                if not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr'
                           for x in ast.walk(s)):
                    return False
                names = self.names_in(s.iter, node) if isinstance(s, ast.For) else None
                return names is None or attr in names
            if isinstance(s, ast.Expr):
                return calls(s.value)
            return False
        return stmts(node.body)

    def names_in(self, e, node, depth=0):
        """the strings a display (possibly behind a name) holds; None when not known"""
        if isinstance(e, ast.Name) and depth < 4:
            f = self.bynode.get(node)
            if f is None or e.id in f.params or e.id in f.stored:
                return None
            x = self.P.resolve(f.mod.name, e.id)
            vals = [v for v in x[2] if isinstance(v, ast.expr)] if x and x[0] == 'assign' and isinstance(x[2], list) else []
            return self.names_in(vals[0], node, depth + 1) if len(vals) == 1 and len(vals) == len(x[2]) else None
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            out = set()
            for x in e.elts:
                if isinstance(x, (ast.Tuple, ast.List)) and x.elts:
                    x = x.elts[0]
                if not (isinstance(x, ast.Constant) and isinstance(x.value, str)):
                    return None
                out.add(x.value)
            return out
        return None

    # ------------------------------------------------------------------ calls
    def targets(self, c, env, f):
        fn = c.func
        if isinstance(fn, ast.Name):
            if fn.id in f.params or fn.id in f.stored:
                return []
            x = self.P.resolve(f.mod.name, fn.id)
            if x and x[0] == 'func':
                return [(self.bynode.get(x[1].node), 0)]
            if x and x[0] == 'class':
                try:
                    t = self.P.find_method(x[1], '__init__')
                except Exception:
                    t = None
                return [(self.bynode.get(t.node), 1)] if t is not None and hasattr(t, 'node') else []
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Name):
                x = self.P.resolve(f.mod.name, fn.value.id) if fn.value.id not in f.params + sorted(f.stored) else None
                if x and x[0] == 'module':
                    y = self.P.resolve(x[1], fn.attr)
                    if y and y[0] == 'func':
                        return [(self.bynode.get(y[1].node), 0)]
                    return []
                if f.cls is not None and f.params and fn.value.id == f.params[0]:
                    try:
                        t = self.P.find_method(f.cls, fn.attr)
                    except Exception:
                        t = None
                    if t is not None and hasattr(t, 'node'):
                        return [(self.bynode.get(t.node), 0 if t.static else 1)]
            if fn.attr in MUT | ELEM | ITEMS | {'copy', 'append', 'write', 'close', 'read', 'index', 'count', 'join', 'split'}:
                return []
            c2 = [g for g in self.byname.get(fn.attr, []) if g.cls is not None]
            if len(c2) == 1:
                return [(c2[0], 1)]
        return []

    def bindargs(self, g, off, c, env, f):
        out = {}
        pos = g.params[:g.npos]
        for i, a in enumerate(c.args):
            if isinstance(a, ast.Starred):
                break
            if i + off < len(pos):
                out[pos[i + off]] = self.value(a, env, f)
        for k in c.keywords:
            if k.arg:
                out[k.arg] = self.value(k.value, env, f)
        return out

    def callvalue(self, c, env, f):
        fn = c.func
        n = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ''
        out = set()
        for g, off in self.targets(c, env, f):
            if g is None:
                continue
            b = self.bindargs(g, off, c, env, f)
            for k, r in g.returns:
                if r[0] == 'P':
                    for k2, r2 in b.get(r[1], EMPTY):
                        out.add((k2 if k == 'o' else {'e': 'e', 'c': 'c'}.get(k, k), r2))
                else:
                    out.add((k, r))
        if isinstance(fn, ast.Attribute):
            v = self.value(fn.value, env, f)
            if n in ELEM:
                out |= elems(v)
                if n in ('get', 'setdefault') and len(c.args) > 1:
                    out |= self.value(c.args[1], env, f)
            elif n in ITEMS or n == 'copy':
                out |= {('c', r) for k, r in v if k in ('o', 'c', 'e')}
            elif n == 'deepcopy':
                return EMPTY
        if n in COPY and isinstance(fn, ast.Name) or n == 'copy':
            for a in c.args:
                out |= {('c' if k in ('o', 'e') else k, r) for k, r in self.value(a, env, f) if k in ('o', 'e', 'c')}
        if n == 'getattr' and len(c.args) >= 2 and isinstance(c.args[1], ast.Constant):
            out |= self.value(ast.Attribute(c.args[0], str(c.args[1].value), ast.Load()), env, f)
        if n == 'type' and len(c.args) == 1 and isinstance(c.args[0], ast.Name) and f.cls is not None and f.params and \
                c.args[0].id == f.params[0]:
            out.add(('k', ('K', f.cls.qual)))
        return frozenset(out)

    # ------------------------------------------------------------------ effects
    def hit(self, f, node, vals, how):
        for k, r in vals:
            if r[0] == 'P':
                if k in ('o',):
                    f.mutates.setdefault(r[1], how)
                continue
            if k not in ('o', 'e'):
                continue
            if k == 'e' and not self.mutable_elements(r):
                continue
            key = (f.qual, r, node.lineno)
            self.events[key] = (f, node, '%s of %s' % (how, describe(r, k)))

    def mutable_elements(self, r):
        e = self.glob.get(r[1:]) if r[0] == 'G' else self.clsattr.get(r[1:]) if r[0] == 'C' else None
        return e is not None and any(x is not e and container(x) for x in ast.walk(e))

    def effects(self, n, env, f):
        """in-place changes in one expression or simple statement"""
        for x in walk_expr(n):
            if isinstance(x, ast.Call):
                fn = x.func
                if isinstance(fn, ast.Attribute) and fn.attr in MUT:
                    self.hit(f, x, self.value(fn.value, env, f), fn.attr)
                name = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ''
                if name in FIRST and x.args:
                    v = self.value(x.args[0], env, f)
                    self.hit(f, x, v, name)
                    if name == 'setattr':
                        self.classwrite(f, x, v)
                for k in x.keywords:
                    if k.arg == 'out':
                        self.hit(f, x, self.value(k.value, env, f), 'out=')
                for g, off in self.targets(x, env, f):
                    if g is None:
                        continue
                    for p, v in self.bindargs(g, off, x, env, f).items():
                        if p in g.mutates:
                            self.hit(f, x, v, '%s (in %s)' % (g.mutates[p], g.node.name))
                # bound method kept in a local: put = LIST.append
                if isinstance(fn, ast.Name) and ('$m', fn.id) in env:
                    self.hit(f, x, env[('$m', fn.id)], 'change')

    def classwrite(self, f, node, v):
        for k, r in v:
            if k == 'k':
                self.events[(f.qual, r, node.lineno)] = (f, node, 'assignment to an attribute of class %s' % r[1])

    # ------------------------------------------------------------------ walk
    def run(self, f):
        env = {}
        for p in f.params:
            v = {('o', ('P', p))}
            d = f.defaults.get(p)
            if d is not None and container(d):
                v.add(('o', ('D', f.qual, p)))
            elif d is not None:
                v |= self.value(d, {}, f) if not isinstance(d, ast.Constant) else set()
            env[p] = frozenset(v)
        if f.cls is not None and f.params and not f.fi.static:
            env[f.params[0]] = frozenset([('o', ('P', f.params[0]))]) if not f.fi.classm else frozenset([('k', ('K', f.cls.qual))])
        self.body(f.node.body, env, f)

    def body(self, body, env, f):
        for s in body:
            env = self.stmt(s, env, f)
            if env is None:
                return None
        return env

    def join(self, envs):
        envs = [e for e in envs if e is not None]
        if not envs:
            return None
        out = dict(envs[0])
        for e in envs[1:]:
            for k in set(out) | set(e):
                if k in out and k in e:
                    out[k] = out[k] | e[k]
                elif isinstance(k, str) and '.' in k:
                    out.pop(k, None)        # known on one side only: fall back to what is known in general
                else:
                    out[k] = out.get(k, EMPTY) | e.get(k, EMPTY)
        return out

    def stmt(self, s, env, f):
        if isinstance(s, ast.If):
            self.effects(s.test, env, f)
            if isinstance(s.test, ast.Constant):
                return self.body(s.body if s.test.value else s.orelse, dict(env), f)
            return self.join([self.body(s.body, narrow(s.test, True, dict(env), self, f), f),
                              self.body(s.orelse, narrow(s.test, False, dict(env), self, f), f)])
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.effects(s.iter, env, f)
            e = dict(env)
            self.bind(s.target, elems(self.value(s.iter, env, f)), e, f, None)
            for _ in range(2):
                e2 = self.body(s.body, dict(e), f)
                e = self.join([e, e2]) if e2 is not None else e
            return self.body(s.orelse, self.join([env, e]), f)
        if isinstance(s, ast.While):
            e = dict(env)
            for _ in range(2):
                self.effects(s.test, e, f)
                e2 = self.body(s.body, dict(e), f)
                e = self.join([e, e2]) if e2 is not None else e
            return self.body(s.orelse, e, f)
        if isinstance(s, ast.Try):
            b = self.body(s.body, dict(env), f)
            hs = [self.body(h.body, self.join([env, b]), f) for h in s.handlers]
            if b is not None:
                b = self.body(s.orelse, b, f)
            out = self.join([b] + hs)
            return self.body(s.finalbody, out if out is not None else dict(env), f) if s.finalbody else out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.effects(i.context_expr, env, f)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, EMPTY, env, f, None)
            return self.body(s.body, env, f)
        if isinstance(s, (ast.Return, ast.Raise)):
            if getattr(s, 'value', None) is not None:
                self.effects(s.value, env, f)
                f.returns |= self.value(s.value, env, f)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return env
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Nonlocal)):
            return env
        if isinstance(s, ast.Assign):
            self.effects(s.value, env, f)
            v = self.value(s.value, env, f)
            for t in s.targets:
                self.bind(t, v, env, f, s.value)
            return env
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.effects(s.value, env, f)
                self.bind(s.target, self.value(s.value, env, f), env, f, s.value)
            return env
        if isinstance(s, ast.AugAssign):
            self.effects(s.value, env, f)
            t = s.target
            if isinstance(t, ast.Subscript):
                self.hit(f, s, self.value(t.value, env, f), 'item assignment')
            else:
                self.hit(f, s, frozenset(x for x in self.value(as_load(t), env, f) if x[1][0] != 'P' and x[0] == 'o'
                                         or x[1][0] == 'P' and container(s.value)), 'augmented assignment')
                if isinstance(t, ast.Name) and t.id in f.globs:
                    self.events[(f.qual, ('G', f.mod.name, t.id), s.lineno)] = (f, s, 'assignment to the module global %s' % t.id)
                if isinstance(t, ast.Attribute):
                    self.classwrite(f, s, self.value(t.value, env, f))
            return env
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.hit(f, s, self.value(t.value, env, f), 'deletion of an item')
                elif isinstance(t, ast.Name):
                    env.pop(t.id, None)
            return env
        self.effects(s, env, f)
        return env

    def bind(self, t, v, env, f, src):
        if isinstance(t, ast.Name):
            if t.id in f.globs:
                self.events[(f.qual, ('G', f.mod.name, t.id), t.lineno)] = (f, t, 'assignment to the module global %s' % t.id)
                return
            env[t.id] = v
            for k in [k for k in env if isinstance(k, str) and k.startswith(t.id + '.')]:
                del env[k]
            env.pop(('$m', t.id), None)
            if isinstance(src, ast.Attribute) and src.attr in MUT:
                env[('$m', t.id)] = self.value(src.value, env, f)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts):
                for a, b in zip(t.elts, src.elts):
                    self.bind(a, self.value(b, env, f), env, f, b)
            else:
                for a in t.elts:
                    self.bind(a, elems(v), env, f, None)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, env, f, None)
        elif isinstance(t, ast.Subscript):
            self.effects(t.slice, env, f)
            self.hit(f, t, self.value(t.value, env, f), 'item assignment')
            if isinstance(t.value, ast.Call) and isinstance(t.value.func, ast.Name) and t.value.func.id == 'globals':
                self.events[(f.qual, ('G', f.mod.name, '?'), t.lineno)] = (f, t, 'assignment to a module global')
        elif isinstance(t, ast.Attribute):
            bv = self.value(t.value, env, f)
            self.classwrite(f, t, bv)
            if isinstance(t.value, ast.Attribute) and t.value.attr == '__class__':
                self.events[(f.qual, ('K', '?'), t.lineno)] = (f, t, 'assignment to an attribute of a class')
            if isinstance(t.value, ast.Name) and t.value.id not in f.params and t.value.id not in f.stored:
                x = self.P.resolve(f.mod.name, t.value.id)
                if x and x[0] == 'module':
                    self.events[(f.qual, ('G', x[1], t.attr), t.lineno)] = (f, t, 'assignment to %s.%s' % (x[1], t.attr))
            k = dotted(t)
            if k:
                env[k] = v
            roots = {x for x in v if x[1][0] != 'P' and x[0] in ('o', 'e')}
            isself = isinstance(t.value, ast.Name) and f.cls is not None and f.params and t.value.id == f.params[0]
            cell = (t.attr, f.qual, t.lineno)
            if cell not in self.seen_assign:
                self.seen_assign[cell] = [f, True]
                self.attrassign.setdefault(t.attr, []).append(self.seen_assign[cell])
            self.seen_assign[cell][1] = not roots
            if roots:
                if isself:
                    self.attralias.setdefault((f.cls.qual, t.attr), set()).update(roots)
                self.attralias.setdefault((None, t.attr), set()).update(roots)

    seen_assign = {}


def as_load(t):
    if isinstance(t, ast.Name):
        return ast.copy_location(ast.Name(t.id, ast.Load()), t)
    return t


def dotted(e):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        return '.'.join([e.id] + parts[::-1])
    return None


def elems(v):
    out = set()
    for k, r in v:
        if k in ('o', 'c'):
            out.add(('e', r))
        elif k == 'e':
            out.add(('e', r))
        elif k == 'h':
            out.add(('o', r))
    return frozenset((k, r) for k, r in out if r[0] != 'P' or k == 'o')


def narrow(test, truth, env, an, f):
    """x is DEFAULT / x is None tests"""
    t = test
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return narrow(t.operand, not truth, env, an, f)
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Is, ast.IsNot)):
        same = isinstance(t.ops[0], ast.Is) == truth
        k = dotted(t.left)
        if k and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None and same:
            env[k] = EMPTY
        elif k and not same:
            v = an.value(t.comparators[0], env, f)
            cur = an.value(t.left, env, f)
            env[k] = frozenset(x for x in cur if x not in v)
    return env


def walk_expr(n):
    stack = [n]
    while stack:
        x = stack.pop()
        yield x
        if isinstance(x, ast.Lambda):
            continue
        stack.extend(c for c in ast.iter_child_nodes(x) if not isinstance(c, (ast.FunctionDef, ast.ClassDef)))


def describe(r, k):
    what = 'an element of ' if k == 'e' else ''
    if r[0] == 'G':
        return '%sthe module level container %s.%s' % (what, r[1], r[2])
    if r[0] == 'C':
        return '%sthe class level container %s.%s' % (what, r[1], r[2])
    if r[0] == 'D':
        return '%sthe default argument %s of %s' % (what, r[2], r[1])
    return str(r)


def check(P, r):
    with r.obligation('analysis'):
        A.shadow, A.seen_assign = {}, {}
        an = A(P, r)
        for rnd in range(4):
            an.events = {}
            an.shadow.clear()
            for f in an.funs:
                an.run(f)
        r.functions |= {f.qual for f in an.funs}
        r.count('shared module level containers', len(an.glob))
        r.count('shared class level containers', len(an.clsattr))
        r.count('mutable defaults', sum(container(d) for f in an.funs for d in f.defaults.values()))
        hit = {}
        for key, (f, node, text) in sorted(an.events.items(), key=lambda x: str(x[0])):
            if f in an.importfuns:
                continue
            hit.setdefault(key[1], []).append((f, node, text))
        for root, evs in sorted(hit.items(), key=str):
            f, node, text = evs[0]
            r.viol(' '.join(str(x) for x in root), '%s: %s' % (f.qual, text), where='%s:%d' % (f.mod.rel, node.lineno))
        for k in an.glob:
            if ('G',) + k not in hit:
                r.ok('module level %s.%s' % k)
        for k in an.clsattr:
            if ('C',) + k not in hit:
                r.ok('class level %s.%s' % k)
        for f in an.funs:
            for p, d in f.defaults.items():
                if container(d) and ('D', f.qual, p) not in hit:
                    r.ok('default %s of %s' % (p, f.qual))
        # caches
        for f in an.funs:
            for d in f.node.decorator_list:
                t = ast.unparse(d)
                if 'lru_cache' in t or t.split('.')[-1] in ('cache', 'memoize'):
                    rets = [x.value for x in ast.walk(f.node) if isinstance(x, ast.Return) and x.value is not None]
                    if any(container(x) for x in rets) or f.cls is not None:
                        r.viol('cache of ' + f.qual, '%s keeps the containers it returns for all callers' % f.qual,
                               where='%s:%d' % (f.mod.rel, f.node.lineno))
                    else:
                        r.undecided('cache of ' + f.qual, 'what is kept between calls')
