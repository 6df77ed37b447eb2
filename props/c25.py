RULE = """Every call of struct.unpack, unpack_from and calcsize in the package (also under another name, through Struct objects
and default arguments) is a site.  Formats, slice bounds and read sizes are evaluated by a disjunctive constant and linear
propagation over each function (branches on tracked variables are kept apart, loops make their variables unknown).  At every
site, for every combination of values reaching it: the format is valid, little-endian for multi-byte values, takes exactly as
many bytes as the slice or read gives whenever that width is known, and yields as many values as the targets or the constant
index take.  Widths that depend on the file only are not judged."""
TECHNIQUE = 'disjunctive constant and linear propagation with a struct layout check at every unpack site'
import ast
import struct
from .common import *       # noqa

LIMIT = 40


class Poly(object):
    """linear expression over unknown values"""
    __slots__ = ('c', 't')

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = {k: v for k, v in dict(t).items() if v}

    def key(self):
        return (self.c, tuple(sorted(self.t.items(), key=repr)))

    def __eq__(self, o):
        return isinstance(o, Poly) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def add(self, o, k=1):
        t = dict(self.t)
        for a, v in o.t.items():
            t[a] = t.get(a, 0) + k * v
        return Poly(self.c + k * o.c, t)

    def scale(self, k):
        return Poly(self.c * k, {a: v * k for a, v in self.t.items()})

    def const(self):
        return None if self.t else self.c


class Fmt(object):
    """format with one inserted number: head, poly, tail"""
    __slots__ = ('head', 'n', 'tail')

    def __init__(self, head, n, tail):
        self.head, self.n, self.tail = head, n, tail

    def key(self):
        return (self.head, self.n.key(), self.tail)

    def __eq__(self, o):
        return isinstance(o, Fmt) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


class Layout(object):
    __slots__ = ('fmt',)

    def __init__(self, fmt):
        self.fmt = fmt

    def __eq__(self, o):
        return isinstance(o, Layout) and o.fmt == self.fmt

    def __hash__(self):
        return hash(('layout', self.fmt))


class Unpack(object):
    """a function value: unpack, unpack_from, calcsize, Struct; bound to a Layout or free"""
    __slots__ = ('name', 'lay')

    def __init__(self, name, lay=None):
        self.name, self.lay = name, lay

    def __eq__(self, o):
        return isinstance(o, Unpack) and (o.name, o.lay) == (self.name, self.lay)

    def __hash__(self):
        return hash((self.name, self.lay))


FUNCS = ('unpack', 'unpack_from', 'calcsize', 'Struct', 'iter_unpack', 'pack')


class Analysis(object):
    def __init__(self, P, r, fi):
        self.P, self.r, self.fi, self.m = P, r, fi, fi.mod
        self.n = 0
        self.sites = {}         # node -> list of (kind, msg)
        self.names = set()
        self.silent = 0
        self.interesting()

    # -------------------------------------------------------------- which variables matter
    def interesting(self):
        want = set()
        for n in ast.walk(self.fi.node):
            if isinstance(n, ast.Call) and (self.callname(n.func) or self.maybe(n.func)):
                for x in list(n.args) + [n.func]:
                    want |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}
        work = True
        while work:
            new = set()
            for n in ast.walk(self.fi.node):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and n.value is not None:
                    tg = n.targets if isinstance(n, ast.Assign) else [n.target]
                    if any(isinstance(y, ast.Name) and y.id in want for t in tg for y in ast.walk(t)):
                        if len(list(ast.walk(n.value))) < 40:
                            new |= {y.id for y in ast.walk(n.value) if isinstance(y, ast.Name)}
            work = bool(new - want)
            want |= new
        self.names = want

    def callname(self, f):
        """'unpack' etc if f is that function of struct by imports, else None"""
        if isinstance(f, ast.Attribute) and f.attr in FUNCS and isinstance(f.value, ast.Name):
            if self.m.imports.get(f.value.id) == ('mod', 'struct'):
                return f.attr
        if isinstance(f, ast.Name):
            return self.global_struct(f.id)
        return None

    def global_struct(self, name):
        res = self.P.resolve(self.m.name, name)
        if res and res[0] == 'ext' and res[1].startswith('struct.') and res[1].split('.')[1] in FUNCS:
            return res[1].split('.')[1]
        return None

    @staticmethod
    def maybe(f):
        n = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
        return 'unpack' in n or n in ('calcsize', 'Struct')

    # -------------------------------------------------------------- values
    def fresh(self, why=''):
        self.n += 1
        return Poly(0, {('u', self.n): 1})

    def lookup(self, name, env):
        if name in env:
            return env[name]
        if name in self.local:
            return None
        g = self.global_struct(name)
        if g:
            return Unpack(g)
        res = self.P.resolve(self.m.name, name)
        if res and res[0] == 'assign' and len(res[2]) == 1 and res[2][0] is not None:
            node = res[2][0]
            if isinstance(node, (ast.Constant, ast.Call, ast.BinOp, ast.Attribute, ast.Name)) and \
                    len(list(ast.walk(node))) < 20:
                sub = Analysis.__new__(Analysis)
                sub.P, sub.r, sub.fi, sub.m, sub.n, sub.local = self.P, self.r, self.fi, res[1], 0, set()
                sub.sites, sub.silent, sub.names = {}, 1, set()
                v = sub.ev(node, {})
                return v if not isinstance(v, Poly) or v.const() is not None else None
        return None

    def ev(self, n, env):
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool) or not isinstance(n.value, (int, str, bytes)):
                return None
            return Poly(n.value) if isinstance(n.value, int) else n.value
        if isinstance(n, ast.Name):
            return self.lookup(n.id, env)
        if isinstance(n, ast.BinOp):
            a, b = self.ev(n.left, env), self.ev(n.right, env)
            if isinstance(n.op, ast.Mod) and isinstance(a, str):
                if isinstance(b, Poly) and a.count('%') == 1 and ('%d' in a or '%i' in a):
                    h, t = a.replace('%i', '%d').split('%d')
                    return h + str(b.c) + t if b.const() is not None else Fmt(h, b, t)
                if isinstance(b, str) and a.count('%') == 1 and '%s' in a:
                    return a.replace('%s', b)
                return None
            if isinstance(a, Poly) and isinstance(b, Poly):
                if isinstance(n.op, ast.Add):
                    return a.add(b)
                if isinstance(n.op, ast.Sub):
                    return a.add(b, -1)
                if isinstance(n.op, ast.Mult):
                    if b.const() is not None:
                        return a.scale(b.c)
                    if a.const() is not None:
                        return b.scale(a.c)
                if a.const() is not None and b.const() is not None:
                    try:
                        if isinstance(n.op, ast.FloorDiv):
                            return Poly(a.c // b.c)
                        if isinstance(n.op, ast.Mod):
                            return Poly(a.c % b.c)
                        if isinstance(n.op, ast.LShift):
                            return Poly(a.c << b.c)
                        if isinstance(n.op, ast.RShift):
                            return Poly(a.c >> b.c)
                    except (ValueError, ZeroDivisionError, OverflowError):
                        pass
                return None
            if isinstance(a, str) and isinstance(b, str) and isinstance(n.op, ast.Add):
                return a + b
            if isinstance(n.op, ast.Add) and isinstance(a, Fmt) and isinstance(b, str):
                return Fmt(a.head, a.n, a.tail + b)
            if isinstance(n.op, ast.Add) and isinstance(b, Fmt) and isinstance(a, str):
                return Fmt(a + b.head, b.n, b.tail)
            if isinstance(n.op, ast.Mult) and isinstance(a, str) and isinstance(b, Poly) and b.const() is not None:
                return a * b.c
            return None
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            a = self.ev(n.operand, env)
            return a.scale(-1) if isinstance(a, Poly) else None
        if isinstance(n, ast.IfExp):
            t = self.test(n.test, env)
            if t is True:
                return self.ev(n.body, env)
            if t is False:
                return self.ev(n.orelse, env)
            a, b = self.ev(n.body, env), self.ev(n.orelse, env)
            return a if a == b else None
        if isinstance(n, (ast.Tuple, ast.List)):
            it = [self.ev(e, env) for e in n.elts]
            return tuple(it) if all(x is not None for x in it) else None
        if isinstance(n, ast.JoinedStr):
            cur = ''
            for x in n.values:
                if isinstance(x, ast.Constant):
                    p = x.value
                else:
                    p = self.ev(x.value, env)
                    if x.format_spec is not None or x.conversion not in (-1, 115, None):
                        return None
                    if isinstance(p, Poly):
                        p = str(p.c) if p.const() is not None else Fmt('', p, '')
                if isinstance(cur, str) and isinstance(p, str):
                    cur = cur + p
                elif isinstance(cur, str) and isinstance(p, Fmt):
                    cur = Fmt(cur + p.head, p.n, p.tail)
                elif isinstance(cur, Fmt) and isinstance(p, str):
                    cur = Fmt(cur.head, cur.n, cur.tail + p)
                else:
                    return None
            return cur
        if isinstance(n, ast.Subscript) and not isinstance(n.slice, ast.Slice):
            a, i = self.ev(n.value, env), self.ev(n.slice, env)
            if isinstance(i, Poly) and i.const() is not None and isinstance(a, (str, tuple)):
                try:
                    return a[i.c]
                except IndexError:
                    return None
            if isinstance(i, Poly) and isinstance(a, tuple) and all(isinstance(x, Poly) for x in a):
                return Poly(0, {('pick', a, i): 1})         # the i-th number of a table
            return None
        if isinstance(n, ast.Attribute):
            a = self.callname(n)
            if a:
                return Unpack(a)
            v = self.ev(n.value, env)
            if isinstance(v, Layout):
                if n.attr == 'size':
                    return self.size(v.fmt)
                if n.attr == 'format':
                    return v.fmt
                if n.attr in ('unpack', 'unpack_from', 'pack', 'iter_unpack'):
                    return Unpack(n.attr, v)
            return None
        if isinstance(n, ast.Call):
            f = self.ev(n.func, env)
            if isinstance(f, Unpack):
                if f.name == 'calcsize' and len(n.args) == 1:
                    return self.size(self.ev(n.args[0], env))
                if f.name == 'Struct' and len(n.args) == 1:
                    v = self.ev(n.args[0], env)
                    return Layout(v) if isinstance(v, (str, Fmt)) else None
                return None
            if isinstance(n.func, ast.Name) and len(n.args) == 1 and not n.keywords:
                v = self.ev(n.args[0], env)
                if n.func.id == 'len' and isinstance(v, (str, bytes, tuple)):
                    return Poly(len(v))
                if n.func.id == 'int' and isinstance(v, Poly):
                    return v
                if n.func.id == 'str' and isinstance(v, Poly):
                    return str(v.c) if v.const() is not None else Fmt('', v, '')
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'join' and len(n.args) == 1:
                s, it = self.ev(n.func.value, env), self.ev(n.args[0], env)
                if isinstance(s, str) and isinstance(it, tuple) and all(isinstance(x, str) for x in it):
                    return s.join(it)
        return None

    def size(self, fmt):
        if isinstance(fmt, bytes):
            fmt = fmt.decode('latin-1')
        if isinstance(fmt, str):
            try:
                return Poly(struct.calcsize(fmt))
            except struct.error:
                return None
        if isinstance(fmt, Fmt) and fmt.tail and fmt.head[:1] in '<>=!':
            try:
                rest = struct.calcsize(fmt.head[:1] + fmt.tail[1:])
                one = struct.calcsize(fmt.head[:1] + fmt.tail[0])
                return fmt.n.scale(one).add(Poly(struct.calcsize(fmt.head) + rest))
            except (struct.error, IndexError):
                return None
        return None

    def count(self, fmt):
        if isinstance(fmt, bytes):
            fmt = fmt.decode('latin-1')
        if isinstance(fmt, str):
            try:
                z = struct.calcsize(fmt)
                return len(struct.unpack(fmt, b'\0' * z)) if z < 10 ** 6 else None
            except struct.error:
                return None
        return None

    def alts(self, node, env, depth=0):
        """(node, env) for each outcome of the conditions inside an expression"""
        if node is None or depth > 4:
            return [(node, env)]
        for x in ast.walk(node):
            if isinstance(x, ast.IfExp) and self.test(x.test, env) is None:
                pick = {True: x.body, False: x.orelse}
                test = x.test
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('int', 'bool') and \
                    len(x.args) == 1 and isinstance(x.args[0], (ast.Compare, ast.BoolOp)) and 'int' not in self.local:
                pick = {True: ast.copy_location(ast.Constant(1), x), False: ast.copy_location(ast.Constant(0), x)}
                test = x.args[0]
            elif isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Compare):
                pick = {v: ast.copy_location(ast.Subscript(x.value, ast.Constant(int(v)), x.ctx), x) for v in (True, False)}
                test = x.slice
            else:
                continue
            out = []
            for v in (True, False):
                for e in self.assume(test, v, env):
                    out += self.alts(replaced(node, x, pick[v]), e, depth + 1)
            return out
        return [(node, env)]

    # -------------------------------------------------------------- conditions
    def test(self, n, env):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = self.ev(n.left, env), self.ev(n.comparators[0], env)
            op = n.ops[0]
            if isinstance(a, Poly) and isinstance(b, Poly):
                d = a.add(b, -1).const()
                if d is None:
                    return None
                return {ast.Eq: d == 0, ast.NotEq: d != 0, ast.Lt: d < 0, ast.LtE: d <= 0, ast.Gt: d > 0,
                        ast.GtE: d >= 0}.get(type(op))
            if isinstance(a, str) and isinstance(b, str) and isinstance(op, (ast.Eq, ast.NotEq)):
                return (a == b) == isinstance(op, ast.Eq)
            if isinstance(op, (ast.In, ast.NotIn)) and isinstance(a, Poly) and isinstance(b, tuple):
                ds = [a.add(x, -1).const() if isinstance(x, Poly) else None for x in b]
                if any(d == 0 for d in ds):
                    return isinstance(op, ast.In)
                if all(d is not None for d in ds):
                    return isinstance(op, ast.NotIn)
            return None
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            t = self.test(n.operand, env)
            return None if t is None else not t
        if isinstance(n, ast.BoolOp):
            ts = [self.test(x, env) for x in n.values]
            if isinstance(n.op, ast.And):
                return False if False in ts else True if all(t is True for t in ts) else None
            return True if True in ts else False if all(t is False for t in ts) else None
        if isinstance(n, ast.Name):
            v = self.lookup(n.id, env)
            if isinstance(v, Poly) and v.const() is not None:
                return bool(v.c)
        return None

    def assume(self, n, val, env):
        """environments in which the condition has that value"""
        t = self.test(n, env)
        if t is not None:
            return [env] if t == val else []
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return self.assume(n.operand, not val, env)
        if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.And) == val:
            envs = [env]
            for x in n.values:
                envs = [e2 for e in envs for e2 in self.assume(x, val, e)]
            return envs
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.left, ast.Name) and n.left.id in self.names:
            v, b = self.lookup(n.left.id, env), self.ev(n.comparators[0], env)
            op = n.ops[0]
            atom = next(iter(v.t)) if isinstance(v, Poly) and v.c == 0 and len(v.t) == 1 and \
                list(v.t.values()) == [1] else None
            if atom is not None or v is None:
                if isinstance(op, ast.Eq) and val or isinstance(op, ast.NotEq) and not val:
                    if isinstance(b, str) or isinstance(b, Poly) and b.const() is not None:
                        return [self.fix(env, n.left.id, atom, b)]
                if isinstance(op, ast.In) and val or isinstance(op, ast.NotIn) and not val:
                    if isinstance(b, tuple) and len(b) <= 8 and all(isinstance(x, str) or x.const() is not None for x in b):
                        return [self.fix(env, n.left.id, atom, x) for x in b]
        return [env]

    def fix(self, env, name, atom, val):
        e = dict(env)
        e[name] = val
        if atom is not None and isinstance(val, Poly):
            e = self.fix_all(e, atom, val)
        return e

    # -------------------------------------------------------------- statements
    def run(self):
        fn = self.fi.node
        a = fn.args
        env = {}
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        self.local = set(params)
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.local.add(n.id)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                self.local |= {(x.asname or x.name).split('.')[0] for x in n.names}
            if isinstance(n, ast.FunctionDef) and n is not fn:
                self.local.add(n.name)
        for x in params:
            if x in self.names:
                env[x] = self.fresh()
        dflt = list(zip([x.arg for x in (a.posonlyargs + a.args)][len(a.posonlyargs + a.args) - len(a.defaults):],
                        a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        loc, self.local = self.local, set()
        for x, d in dflt:       # parameters that pass a function along
            v = self.ev(d, {})
            if isinstance(v, (Unpack, Layout)):
                env[x] = v
        self.local = loc
        self.loops = []
        self.block(fn.body, [env])

    def limit(self, envs):
        out, seen = [], set()
        for e in envs:
            k = tuple(sorted(((a, b) for a, b in e.items()), key=lambda x: x[0]))
            try:
                h = hash(k)
            except TypeError:
                h = id(e)
            if (h, k) not in seen:
                seen.add((h, k))
                out.append(e)
        if len(out) <= LIMIT:
            return out
        # unknown numbers that differ say nothing about widths
        base = {}
        for e in out:
            k = tuple(sorted(((a, b) for a, b in e.items() if not (isinstance(b, Poly) and b.t)), key=lambda x: x[0]))
            base.setdefault(k, []).append(e)
        res = []
        for k, es in base.items():
            res.append(self.join(es))
        if len(res) > LIMIT:
            res = [self.join(res)]
        return res

    def join(self, es):
        if len(es) == 1:
            return es[0]
        out = {}
        for k in set.intersection(*[set(e) for e in es]):
            v = es[0][k]
            if all(e[k] == v for e in es):
                out[k] = v
            elif all(isinstance(e[k], Poly) for e in es):
                out[k] = self.fresh()
        return out

    def block(self, body, envs):
        for s in body:
            if not envs:
                return []
            envs = self.limit(self.stmt(s, envs))
        return envs

    def assigned(self, nodes):
        out = set()
        for b in nodes:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)
        return out

    def forget(self, env, names):
        e = dict(env)
        for x in names & self.names:
            e[x] = self.fresh()
        return e

    def stmt(self, s, envs):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return envs
        if isinstance(s, ast.If):
            self.scan(s.test, envs)
            a = [e2 for e in envs for e2 in self.assume(s.test, True, e)]
            b = [e2 for e in envs for e2 in self.assume(s.test, False, e)]
            return self.block(s.body, self.limit(a)) + self.block(s.orelse, self.limit(b))
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            head = s.iter if not isinstance(s, ast.While) else s.test
            if not isinstance(s, ast.While):
                self.scan(head, envs)
            asg = self.assigned(s.body + s.orelse + ([s.target] if not isinstance(s, ast.While) else []))
            # a loop over constants: each value in turn
            start = self.limit([self.forget(e, asg) for e in envs])
            if isinstance(s, ast.While):
                self.scan(head, start)
            self.loops.append([])
            inside = start
            if isinstance(s, ast.For) and isinstance(s.target, ast.Name):
                inside = []
                for e in start:
                    it = self.ev(s.iter, e)
                    if isinstance(it, (tuple, str)) and len(it) <= 8:
                        inside += [dict(e, **{s.target.id: x}) for x in it]
                    else:
                        inside.append(e)
                inside = self.limit(inside)
            elif isinstance(s, ast.While):
                inside = [e2 for e in start for e2 in self.assume(head, True, e)]
            self.block(s.body, inside)
            brk = self.loops.pop()
            after = [self.forget(e, asg) for e in envs]
            return self.block(s.orelse, after) + brk
        if isinstance(s, (ast.Break, ast.Continue)):
            if self.loops and isinstance(s, ast.Break):
                self.loops[-1] += envs
            return []
        if isinstance(s, (ast.Return, ast.Raise)):
            for x in ast.iter_child_nodes(s):
                self.scan(x, envs)
            return []
        if isinstance(s, ast.Try):
            asg = self.assigned(s.body)
            hs = [self.forget(e, asg) for e in envs]
            out = self.block(s.body, envs)
            out = self.block(s.orelse, out) if s.orelse else out
            for h in s.handlers:
                out = out + self.block(h.body, list(hs))
            if s.finalbody:
                out = self.block(s.finalbody, self.limit(out or hs))
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.scan(i.context_expr, envs)
            asg = self.assigned([i.optional_vars for i in s.items if i.optional_vars is not None])
            return self.block(s.body, [self.forget(e, asg) for e in envs])
        if isinstance(s, ast.Assert):
            self.scan(s.test, envs)
            return [e2 for e in envs for e2 in self.assume(s.test, True, e)]
        if isinstance(s, ast.Assign):
            self.scan(s.value, envs, s.targets)
            out = []
            track = any(isinstance(y, ast.Name) and y.id in self.names for t in s.targets for y in ast.walk(t))
            for e0 in envs:
                for val, e in self.alts(s.value, e0) if track else [(s.value, e0)]:
                    e = dict(e)
                    for t in s.targets:
                        self.bind(t, val, e)
                    out.append(e)
            return out
        if isinstance(s, ast.AnnAssign) and s.value is not None:
            self.scan(s.value, envs, [s.target])
            out = []
            for e in envs:
                e = dict(e)
                self.bind(s.target, s.value, e)
                out.append(e)
            return out
        if isinstance(s, ast.AugAssign):
            self.scan(s.value, envs)
            out = []
            for e in envs:
                if isinstance(s.target, ast.Name) and s.target.id in self.names:
                    e = dict(e)
                    v = self.ev(ast.copy_location(ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value), s), e)
                    e[s.target.id] = v if v is not None else self.fresh()
                out.append(e)
            return out
        for x in ast.iter_child_nodes(s):
            self.scan(x, envs)
        return envs

    def bind(self, t, value, e):
        if isinstance(t, ast.Name):
            if t.id in self.names:
                v = self.ev(value, e) if value is not None else None
                if v is None:
                    e.pop(t.id, None)
                    e[t.id] = self.fresh()
                else:
                    e[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                old = dict(e)
                for a, b in zip(t.elts, value.elts):
                    x = dict(old)
                    self.bind(a, b, x)
                    for n in self.assigned([a]):
                        if n in x:
                            e[n] = x[n]
                return
            v = self.ev(value, e) if value is not None else None
            for i, a in enumerate(t.elts):
                if isinstance(a, ast.Name) and a.id in self.names:
                    e[a.id] = v[i] if isinstance(v, tuple) and len(v) == len(t.elts) else self.fresh()
                elif not isinstance(a, ast.Name):
                    self.bind(a, None, e)

    # -------------------------------------------------------------- sites
    def scan(self, node, envs, targets=None):
        if node is None or not isinstance(node, ast.AST) or self.silent:
            return
        parents = {}
        for n in ast.walk(node):
            for c in ast.iter_child_nodes(n):
                parents[c] = n
        for n in ast.walk(node):
            if isinstance(n, ast.Call):
                for e in envs:
                    e = self.comprehension(n, parents, e)
                    f = self.ev(n.func, e)
                    if isinstance(f, Unpack) and f.name in ('unpack', 'unpack_from'):
                        self.site(n, f, e, parents.get(n), targets if n is node else None)

    def comprehension(self, n, parents, e):
        asg = set()
        while n in parents:
            n = parents[n]
            if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                asg |= self.assigned([g.target for g in n.generators])
            elif isinstance(n, ast.Lambda):
                asg |= {a.arg for a in n.args.args}
        return self.forget(e, asg) if asg else e

    def site(self, n, f, env, parent, targets):
        facts = self.sites.setdefault(n, {'fmt': 0, 'width': 0, 'values': 0, 'bad': []})
        for n2, e in self.alts(n, env):
            p = parent
            if isinstance(parent, ast.Subscript) and parent.value is n:
                p = ast.copy_location(ast.Subscript(n2, parent.slice, parent.ctx), parent)
            self.site1(n2, f, e, p, targets, facts)

    def site1(self, n, f, env, parent, targets, facts):
        bad = facts['bad']
        args = list(n.args)
        if any(isinstance(a, ast.Starred) for a in args):
            return
        kw = {k.arg: k.value for k in n.keywords}
        if f.lay is not None:
            fmt, buf = f.lay.fmt, args[0] if args else kw.get('buffer')
        else:
            fnode = args[0] if args else None
            buf = args[1] if len(args) > 1 else kw.get('buffer')
            cs = self.cases(fnode, buf, env)
            if cs is None:
                self.judge(n, f, self.ev(fnode, env), buf, env, parent, targets, facts, bad)
                return
            # which of the indices occur is not known: each must fit if the width has an entry for each, else one
            found = []
            for sub in cs[1]:
                b2 = []
                self.judge(n, f, self.ev(fnode, sub), buf, sub, None, None, facts, b2)
                found.append(b2)
            if cs[0] or all(found):
                for b2 in found:
                    bad.extend(b2)
            return
        self.judge(n, f, fmt, buf, env, parent, targets, facts, bad)

    def cases(self, fnode, buf, env):
        """a format picked from a constant by an unknown index: -> [(env for the index, strict)]"""
        if fnode is None or self.ev(fnode, env) is not None:
            return None
        for x in ast.walk(fnode):
            if isinstance(x, ast.Subscript) and not isinstance(x.slice, ast.Slice):
                tab, i = self.ev(x.value, env), self.ev(x.slice, env)
                if isinstance(tab, (str, tuple)) and isinstance(i, Poly) and len(i.t) == 1 and list(i.t.values()) == [1]:
                    atom = next(iter(i.t))
                    w = self.width(buf, env)
                    strict = w is not None and any(a[0] == 'pick' and atom in a[2].t and len(a[1]) == len(tab) for a in w.t)
                    return strict, [self.fix_all(env, atom, Poly(k - i.c)) for k in range(len(tab))]
        return None

    def fix_all(self, env, atom, val):
        e = dict(env)
        for k, v in e.items():
            if isinstance(v, Poly):
                e[k] = put(v, atom, val)
        return e

    def judge(self, n, f, fmt, buf, env, parent, targets, facts, bad):
        if isinstance(fmt, bytes):
            fmt = fmt.decode('latin-1')
        if not isinstance(fmt, (str, Fmt)):
            return
        facts['fmt'] = 1
        text = fmt if isinstance(fmt, str) else '%s%%d%s' % (fmt.head, fmt.tail)
        if isinstance(fmt, str):
            try:
                struct.calcsize(fmt)
            except struct.error as x:
                bad.append(('format', 'format %r is not valid: %s' % (fmt, x)))
                return
            if fmt[:1] in '>!' and struct.calcsize(fmt) and any(c in fmt for c in 'hHiIlLqQfde'):
                bad.append(('order', 'format %r reads big-endian values' % fmt))
            elif fmt[:1] not in '<>=!' and struct.calcsize(fmt) != struct.calcsize('<' + fmt.lstrip('@')):
                bad.append(('order', 'format %r takes the sizes and gaps of the machine' % fmt))
        size = self.size(fmt)
        w = self.width(buf, env) if f.name == 'unpack' else None
        if size is not None and w is not None:
            d = size.add(w, -1)
            if not d.t or len(d.t) == 1 and len(set(size.t) | set(w.t)) == 1:
                facts['width'] = 1
            if d.c or d.t:
                if not d.t and d.c:
                    bad.append(('width', 'format %r takes %s bytes and is given %s' % (text, show_poly(size), show_poly(w))))
                elif len(set(size.t) | set(w.t)) == 1 and size.t:
                    bad.append(('width', 'format %r takes %s bytes and is given %s' % (text, show_poly(size), show_poly(w))))
        cnt = self.count(fmt)
        if cnt is None:
            return
        if isinstance(parent, ast.Subscript) and parent.value is n:
            i = self.ev(parent.slice, env) if not isinstance(parent.slice, ast.Slice) else None
            if isinstance(i, Poly) and i.const() is not None:
                facts['values'] = 1
                if not -cnt <= i.c < cnt:
                    bad.append(('values', 'value %d of the %d that format %r gives' % (i.c, cnt, text)))
        for t in targets or ():
            if isinstance(t, (ast.Tuple, ast.List)):
                stars = sum(isinstance(x, ast.Starred) for x in t.elts)
                facts['values'] = 1
                if len(t.elts) != cnt if not stars else len(t.elts) - 1 > cnt:
                    bad.append(('values', '%d targets for the %d values that format %r gives' % (len(t.elts), cnt, text)))

    def width(self, b, env):
        """bytes that an expression gives, if it does not depend on the data alone"""
        if isinstance(b, ast.Name) and b.id in self.pieces:
            return None
        if isinstance(b, ast.Subscript) and isinstance(b.slice, ast.Slice) and b.slice.step is None:
            lo = self.ev(b.slice.lower, env) if b.slice.lower is not None else Poly(0)
            if b.slice.upper is None:
                if isinstance(lo, Poly) and lo.const() is not None and lo.c < 0:
                    return Poly(-lo.c)
                return None
            hi = self.ev(b.slice.upper, env)
            if isinstance(lo, Poly) and isinstance(hi, Poly):
                if hi.const() is not None and lo.const() is not None and (lo.c < 0) != (hi.c < 0):
                    return None
                return hi.add(lo, -1)
            return None
        if isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute) and b.func.attr == 'read' and len(b.args) == 1:
            v = self.ev(b.args[0], env)
            return v if isinstance(v, Poly) and not (v.const() is not None and v.c < 0) else None
        if isinstance(b, ast.Constant) and isinstance(b.value, bytes):
            return Poly(len(b.value))
        if isinstance(b, ast.BinOp) and isinstance(b.op, ast.Add):
            x, y = self.width(b.left, env), self.width(b.right, env)
            return x.add(y) if x is not None and y is not None else None
        return None

    pieces = ()


def put(p, atom, val):
    out = Poly(p.c)
    for a, c in p.t.items():
        if a == atom:
            v = val
        elif a[0] == 'pick':
            i = put(a[2], atom, val)
            v = a[1][i.c] if i.const() is not None and -len(a[1]) <= i.c < len(a[1]) else Poly(0, {('pick', a[1], i): 1})
        else:
            v = Poly(0, {a: 1})
        out = out.add(v, c)
    return out


def replaced(root, old, new):
    if root is old:
        return new

    # copy the spine only: other nodes are shared
    def go(n):
        if n is old:
            return new
        hit = False
        kw = {}
        for f, v in ast.iter_fields(n):
            if isinstance(v, ast.AST):
                w = go(v)
                hit = hit or w is not v
                kw[f] = w
            elif isinstance(v, list):
                w = [go(x) if isinstance(x, ast.AST) else x for x in v]
                hit = hit or any(a is not b for a, b in zip(v, w))
                kw[f] = w
            else:
                kw[f] = v
        return ast.copy_location(type(n)(**kw), n) if hit else n
    return go(root)


def show_poly(p):
    return str(p.c) if not p.t else '%s%s' % (' + '.join('%d*n' % v if v != 1 else 'n' for v in p.t.values()),
                                             ' + %d' % p.c if p.c else '')


def check(P, r):
    n = 0
    seen = set()
    for fi in P.functions:
        if getattr(fi.mod, 'spec', False) or id(fi.node) in seen:
            continue
        seen.add(id(fi.node))
        text = ast.dump(fi.node)
        if 'unpack' not in text and 'Struct' not in text:
            continue
        try:
            a = Analysis(P, r, fi)
            a.run()
        except RecursionError:
            r.undecided(fi.qual, 'expression too deep')
            continue
        r.functions.add(fi.qual)
        for node, facts in a.sites.items():
            n += 1
            name = '%s:%d %s' % (fi.mod.rel, node.lineno, fi.qual.split('.')[-1])
            r.count('unpack sites')
            r.count('with a known format', facts['fmt'])
            r.count('with a known width', facts['width'])
            r.count('with a known number of values taken', facts['values'])
            if facts['bad']:
                for k, m in sorted(set(facts['bad'])):
                    r.viol(k, '%s: %s' % (fi.qual, m), '%s:%d' % (fi.mod.rel, node.lineno))
            elif facts['fmt']:
                r.ok(name)
            else:
                r.count('format not constant')
    if not n:
        r.undecided('sites', 'no unpack site found')
