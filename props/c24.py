RULE = """Every while loop of the compound document reader is examined, with the package functions it calls written into the loop.
A loop follows a chain when a variable its condition reads is replaced in the body by an entry of a table selected by that
variable.  Every way round such a loop (one obligation each) must carry a certificate of progress: a mark on the visited sector
whose presence ends the loop before the sector is used again, or a counter (also the length of a list that grows, or a number
counted down) that moves on every round and ends the loop at a bound that the loop does not change."""
TECHNIQUE = 'path-wise ranking/visited-mark certificates for chain-following loops over the syntax tree (termination analysis)'
import ast
import copy
from .common import *       # noqa

MOD = 'channelpack.xlrd.compdoc'
INERT = {'print', 'fprintf', 'dump_list', 'unpack', 'unpack_from', 'len', 'list', 'tuple', 'min', 'max', 'range', 'xrange', 'bytes',
         'int', 'str', 'repr', 'isinstance', 'divmod', 'bool', 'enumerate', 'zip', 'sum', 'CompDocError', 'join', 'format',
         'calcsize', 'array', 'memoryview', 'set', 'sorted', 'abs'}
GROW = {'append', 'add'}
SHRINK = {'pop', 'remove', 'clear', 'discard', 'popleft'}


def dump(n):
    return ast.unparse(n)


def names_of(n):
    """printed names and attribute chains read in an expression"""
    out = set()
    for x in ast.walk(n):
        if isinstance(x, (ast.Name, ast.Attribute)):
            out.add(dump(x))
    return out


class Sub(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        if n.id in self.m:
            return copy.deepcopy(self.m[n.id]) if isinstance(n.ctx, ast.Load) or isinstance(self.m[n.id], ast.Name) else n
        return n


def branch(e, t, leave):
    """the ways an expression can come out as t, as tuples of elementary tests"""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return branch(e.operand, not t, leave)
    if isinstance(e, ast.BoolOp):
        stop = isinstance(e.op, ast.Or)         # the value that ends the evaluation
        if t != stop:
            out = [()]
            for v in e.values:
                out = [a + b for a in out for b in branch(v, t, leave)]
            return out
        out, head = [], [()]
        for v in e.values:
            out += [a + b for a in head for b in branch(v, stop, leave)]
            head = [a + b for a in head for b in branch(v, not stop, leave)]
        return out
    return [(('cond', e, t, leave),)]


class Ways(object):
    """the acyclic ways through a body: lists of ('cond', expr, truth) and ('do', stmt), with an end"""

    def __init__(self, P, mod, cls, limit=3000):
        self.P, self.mod, self.cls, self.limit = P, mod, cls, limit
        self.n = 0

    def body(self, stmts, depth=0):
        ways = [((), 'next')]
        for s in stmts:
            new = []
            for w, end in ways:
                if end != 'next':
                    new.append((w, end))
                    continue
                for w2, e2 in self.stmt(s, depth):
                    new.append((w + w2, e2))
            ways = new
            if len(ways) > self.limit:
                raise Budget('too many ways round the loop at line %d' % stmts[0].lineno)
        return ways

    def stmt(self, s, depth):
        if isinstance(s, ast.If):
            t = s.test
            if isinstance(t, ast.Constant):
                return self.body(s.body if t.value else s.orelse, depth)
            res = {True: self.body(s.body, depth), False: self.body(s.orelse, depth)}
            return [(c + w, e) for truth in res for w, e in res[truth] for c in branch(
                t, truth, all(e2 in ('raise', 'break', 'return') for _, e2 in res[not truth]))]
        if isinstance(s, ast.Continue):
            return [((), 'continue')]
        if isinstance(s, ast.Break):
            return [((), 'break')]
        if isinstance(s, ast.Return):
            return [((), 'return')]
        if isinstance(s, ast.Raise):
            return [((), 'raise')]
        if isinstance(s, ast.Assert):
            return [(c, e) for t, e in ((True, 'next'), (False, 'raise')) for c in branch(s.test, t, t)]
        if isinstance(s, (ast.While, ast.For)):
            # an inner loop: what it changes is changed, its own exits are not followed further
            return [((('inner', s),), 'next')] + ([((), 'raise')] if any(isinstance(x, ast.Raise) for x in ast.walk(s)) else [])
        if isinstance(s, ast.Try):
            out = []
            for w, e in self.body(s.body + s.orelse, depth):
                out.append((w, e))
            for h in s.handlers:
                for w, e in self.body(h.body, depth):
                    out.append(((('inner', s),) + w, e))
            if s.finalbody:
                fin = self.body(s.finalbody, depth)
                out = [(w + w2, e if e2 == 'next' else e2) for w, e in out for w2, e2 in fin]
            return out
        if isinstance(s, ast.With):
            return self.body(s.body, depth)
        call = None
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            call = s.value
        elif isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and len(s.targets) == 1:
            call = s.value
        if call is not None and depth < 3:
            r = self.inline(call, s, depth)
            if r is not None:
                return r
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
            v = s.value
            return [((('cond', v.test, t, False), ('do', ast.copy_location(ast.Assign(s.targets, x), s))), 'next')
                    for t, x in ((True, v.body), (False, v.orelse))]
        return [((('do', s),), 'next')]

    def inline(self, call, s, depth):
        fi, args = self.target(call)
        if fi is None:
            return None
        node = fi.node
        a = node.args
        if a.vararg or a.kwarg or fi.is_gen or any(isinstance(x, ast.Starred) for x in call.args) or any(
                k.arg is None for k in call.keywords):
            return None
        params = [x.arg for x in a.posonlyargs + a.args]
        m = dict(zip(params, args))
        for k in call.keywords:
            m[k.arg] = k.value
        for p, d in zip(params[len(params) - len(a.defaults):], a.defaults):
            m.setdefault(p, d)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                m.setdefault(x.arg, d)
        stored = {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
        if stored & set(m):
            return None
        m.update({x: ast.Name('%s$%s' % (x, node.name), ast.Load()) for x in stored})
        body = [Sub(m).visit(copy.deepcopy(x)) for x in node.body]
        for x in body:
            for y in ast.walk(x):
                if isinstance(y, ast.Name) and y.id in stored:
                    y.id = '%s$%s' % (y.id, node.name)
        out = []
        sub = Ways(self.P, fi.mod, fi.cls, self.limit)
        for w, e in sub.body(body, depth + 1):
            if e == 'raise':
                out.append((w, e))
            elif e in ('next', 'return'):
                out.append((w + ((('ret', s),) if isinstance(s, ast.Assign) else ()), 'next'))
            else:
                return None
        # the value of a single return expression
        rets = [x for b in body for x in ast.walk(b) if isinstance(x, ast.Return)]
        if isinstance(s, ast.Assign) and len(rets) == 1 and rets[0].value is not None:
            do = ('do', ast.copy_location(ast.Assign(s.targets, rets[0].value), s))
            out = [(tuple(do if x[0] == 'ret' else x for x in w), e) for w, e in out]
        return out

    def target(self, call):
        f = call.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'self' and self.cls is not None:
            try:
                fi = self.P.find_method(self.cls, f.attr)
            except Exception:
                fi = None
            if fi is not None and hasattr(fi, 'node'):
                if fi.static:
                    return fi, list(call.args)
                return fi, [f.value] + list(call.args)
        if isinstance(f, ast.Name) and f.id in self.mod.functions and f.id not in INERT:
            return self.mod.functions[f.id], list(call.args)
        return None, None


def changed(w):
    """printed targets changed on a way, containers by their name"""
    out = set()
    for x in w:
        if x[0] == 'cond':
            for y in ast.walk(x[1]):
                if isinstance(y, ast.NamedExpr):
                    out.add(dump(y.target))
            continue
        for y in ast.walk(x[1]):
            if isinstance(y, (ast.Name, ast.Attribute)) and isinstance(getattr(y, 'ctx', None), (ast.Store, ast.Del)):
                out.add(dump(y))
            if isinstance(y, ast.Subscript) and isinstance(y.ctx, (ast.Store, ast.Del)):
                out.add(dump(y.value))
            if isinstance(y, ast.AugAssign):
                out.add(dump(y.target))
            if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in (
                    GROW | SHRINK | {'extend', 'insert', 'update', 'setdefault'}):
                out.add(dump(y.func.value))
    return out


def facts(w):
    """(expr, truth) implied by the conditions of a way, in place"""
    def split(e, t):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return split(e.operand, not t)
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And if t else ast.Or):
            return [x for v in e.values for x in split(v, t)]
        if isinstance(e, ast.Compare) and len(e.ops) > 1 and t:
            out, left = [], e.left
            for op, c in zip(e.ops, e.comparators):
                out.append((ast.Compare(left, [op], [c]), True))
                left = c
            return out
        return [(e, t)]
    for i, x in enumerate(w):
        if x[0] == 'cond':
            for e, t in split(x[1], x[2]):
                yield i, e, t


NEG = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.In: ast.NotIn, ast.NotIn: ast.In}
FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


def rel(e, t):
    """(left, operator type, right) that holds"""
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        op = type(e.ops[0])
        if op in (ast.Is, ast.IsNot):
            return None
        return e.left, (op if t else NEG.get(op)), e.comparators[0]
    return None


def const(e):
    try:
        return ast.literal_eval(e)
    except Exception:
        return None


def steps(w, v):
    """net effect of a way on the printed counter v: a number, None when unknown"""
    tot = 0
    for x in w:
        if x[0] == 'inner':
            if v in changed([x]) or v.startswith('len(') and v[4:-1] in changed([x]):
                return None
            continue
        if x[0] in ('cond', 'ret'):
            if v in changed([x]):
                return None
            continue
        s = x[1]
        if v.startswith('len('):
            c = v[4:-1]
            if c not in changed([x]):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and dump(
                    s.value.func.value) == c and s.value.func.attr == 'append':
                tot += 1
            elif isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.value, (ast.List, ast.Tuple)):
                tot += len(s.value.elts)
            elif any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and dump(y.func.value) == c
                     and y.func.attr == 'extend' for y in ast.walk(s)):
                pass
            else:
                return None
            continue
        if v not in changed([x]):
            continue
        if isinstance(s, ast.AugAssign) and dump(s.target) == v and isinstance(s.op, (ast.Add, ast.Sub)):
            c = const(s.value)
            if not isinstance(c, int):
                return None
            tot += c if isinstance(s.op, ast.Add) else -c
        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, ast.BinOp) and dump(
                s.value.left) == v and isinstance(s.value.op, (ast.Add, ast.Sub)) and isinstance(const(s.value.right), int):
            c = const(s.value.right)
            tot += c if isinstance(s.value.op, ast.Add) else -c
        else:
            return None
    return tot


def inv(e, ch):
    """an expression the loop does not change"""
    if names_of(e) & ch:
        return False
    return all(not isinstance(x, ast.Call) or dump(x.func) in ('len', 'min', 'max', 'int') for x in ast.walk(e))


def truth_const(e):
    c = const(e)
    return None if c is None and not (isinstance(e, ast.Constant) and e.value is None) else bool(c)


def certificate(w, chainvars, ch, allways):
    """(text, None) with a certificate, (None, reason) when not understood, (None, None) when there is none"""
    doubt = None
    w = expand(w)
    for i, e, t in facts(w):
        if w[i][3] and mark(e, t) is None and (names_of(e) & ch) - set(chainvars) and not (
                rel(e, t) and counted(e, t, w, ch)):
            doubt = 'the test %s' % dump(e)
        # visited marks
        m = mark(e, t)
        if m:
            cont, key, how = m
            if key in chainvars:
                for y in w[i + 1:]:
                    if y[0] != 'do':
                        if y[0] == 'inner' and (key in changed([y]) or cont in changed([y])):
                            break
                        continue
                    r = marks(y[1], cont, key, how)
                    if r:
                        if resets(allways, cont, y[1]):
                            doubt = 'marks in %s are also taken away' % cont
                            break
                        return 'mark in %s' % cont, None
                    if r is None:
                        doubt = 'mark in %s' % cont
                    if key in changed([y]):
                        break
        # counters
        q = rel(e, t)
        if q and q[1] in FLIP:
            for a, op, b in ((q[0], q[1], q[2]), (q[2], FLIP[q[1]], q[0])):
                v = dump(a)
                if not inv(b, ch) or not (names_of(a) & ch):
                    continue
                if names_of(a) & set(chainvars):
                    continue
                off = 0
                if isinstance(a, ast.BinOp) and isinstance(a.op, (ast.Add, ast.Sub)) and isinstance(const(a.right), int):
                    v = dump(a.left)
                n = steps(w, v)
                if n is None:
                    doubt = 'how %s moves' % v if w[i][3] else doubt
                    continue
                every = [steps(x, v) for x in allways]
                if None in every:
                    doubt = 'how %s moves' % v if w[i][3] else doubt
                    continue
                if op in (ast.Lt, ast.LtE) and n > 0 and min(every) >= 0:
                    return '%s < %s' % (v, dump(b)), None
                if op in (ast.Gt, ast.GtE) and n < 0 and max(every) <= 0:
                    return '%s > %s' % (v, dump(b)), None
                if op is ast.NotEq and abs(n) == 1 and (min(every) >= 0 or max(every) <= 0):
                    return '%s != %s' % (v, dump(b)), None
        # a counter used as a truth value: while n: n -= 1
        if t and isinstance(e, (ast.Name, ast.Attribute)):
            v = dump(e)
            n = steps(w, v)
            if n is not None and n == -1:
                return 'count of %s' % v, None
    return None, doubt


def counted(e, t, w, ch):
    """a comparison of something whose movement is known with something fixed"""
    a, op, b = rel(e, t)
    if op is None:
        return False
    for x, y in ((a, b), (b, a)):
        if inv(y, ch):
            v = x.left if isinstance(x, ast.BinOp) and isinstance(const(x.right), int) else x
            if steps(w, dump(v)) is not None and (isinstance(v, (ast.Name, ast.Attribute)) or dump(v).startswith('len(')):
                return True
    return dump(a).startswith('len(') and dump(a) in dump(b)


PURE = (ast.Subscript, ast.Compare, ast.BoolOp, ast.Name, ast.Attribute, ast.UnaryOp, ast.BinOp, ast.Constant)


def expand(w):
    """the way with locals in its tests replaced by what they were assigned on it"""
    defs, out = {}, []
    for x in w:
        if x[0] == 'cond':
            e = copy.deepcopy(x[1])
            for _ in range(3):
                e = Sub(defs).visit(e) if defs else e
            out.append(('cond', e) + x[2:])
            continue
        out.append(x)
        c = changed([x])
        for k in list(defs):
            if k in c or names_of(defs[k]) & c:
                del defs[k]
        if x[0] == 'do' and isinstance(x[1], ast.Assign) and len(x[1].targets) == 1 and isinstance(x[1].targets[0], ast.Name):
            v, n = x[1].value, x[1].targets[0].id
            if n not in names_of(v) and (isinstance(v, PURE) or isinstance(v, ast.Call) and dump(v.func) == 'len') and not any(
                    isinstance(y, ast.Call) and dump(y.func) != 'len' for y in ast.walk(v)):
                defs[n] = v
    return tuple(out)


def mark(e, t):
    """(container, key, kind) when the fact says that key is not marked in the container"""
    if isinstance(e, ast.Subscript) and not t:
        return dump(e.value), dump(e.slice), 'truthy'
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'get' and e.args and not t:
        return dump(e.func.value), dump(e.args[0]), 'truthy'
    q = rel(e, t)
    if q:
        a, op, b = q
        if op is ast.NotIn:
            return dump(b), dump(a), 'in'
        if isinstance(a, ast.Subscript):
            if op is ast.NotEq:
                return dump(a.value), dump(a.slice), ('ne', b)
            if op is ast.Eq and const(b) in (0, False) and const(b) is not None:
                return dump(a.value), dump(a.slice), 'truthy'
            if op in (ast.Lt, ast.LtE):
                return dump(a.value), dump(a.slice), ('lt', op, b)
    return None


def marks(s, cont, key, how):
    """True when the statement marks, None when it may"""
    if isinstance(s, ast.Assign):
        for t in s.targets:
            if isinstance(t, ast.Subscript) and dump(t.value) == cont and dump(t.slice) == key:
                if how == 'in':
                    return True
                if how == 'truthy':
                    c = truth_const(s.value)
                    if c is not None:
                        return c
                    return True         # sector marks are passed in; a zero one would be a constant
                if how[0] == 'ne':
                    return True if dump(s.value) == dump(how[1]) else (
                        False if const(s.value) is not None and const(how[1]) is not None else None)
                if how[0] == 'lt':
                    a, b = const(s.value), const(how[2])
                    if a is None or b is None:
                        return None
                    return not (a < b if how[1] is ast.Lt else a <= b)
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Subscript) and dump(s.target.value) == cont and dump(
            s.target.slice) == key:
        return True if isinstance(s.op, (ast.Add, ast.BitOr)) and const(s.value) and how == 'truthy' else None
    if how == 'in' and isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute):
        f = s.value.func
        if dump(f.value) == cont and f.attr in GROW and s.value.args and dump(s.value.args[0]) == key:
            return True
    return False


def resets(ways, cont, own):
    for w in ways:
        for x in w:
            if x[0] == 'cond' or cont not in changed([x]):
                continue
            for y in ast.walk(x[1]):
                if isinstance(y, ast.Assign) and any(isinstance(t, ast.Subscript) and dump(t.value) == cont for t in y.targets):
                    if truth_const(y.value) is False:
                        return True
                if isinstance(y, ast.Assign) and any(dump(t) == cont for t in y.targets):
                    return True
                if isinstance(y, ast.Delete) and any(isinstance(t, ast.Subscript) and dump(t.value) == cont for t in y.targets):
                    return True
                if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and dump(y.func.value) == cont and \
                        y.func.attr in SHRINK:
                    return True
    return False


def chain_vars(loop, ways):
    """variables the loop's going on depends on that are replaced by a table entry they select"""
    tests = set(names_of(loop.test))
    for w, e in ways:
        for i, x, t in facts(w):
            tests |= names_of(x)
    out = set()
    for w, e in ways:
        src = {}
        for x in w:
            if x[0] != 'do' or not isinstance(x[1], ast.Assign):
                if x[0] == 'do' and isinstance(x[1], ast.Expr) and isinstance(x[1].value, ast.Call) and isinstance(
                        x[1].value.func, ast.Attribute) and x[1].value.func.attr in ('extend', 'append'):
                    c = dump(x[1].value.func.value)
                    src.setdefault(c, set()).update(*[reach(names_of(a), src) for a in x[1].value.args] or [set()])
                continue
            s = x[1]
            dep = reach(names_of(s.value), src)
            lookup = any(isinstance(y, ast.Subscript) or isinstance(y, ast.Call) and dump(y.func).split('.')[-1] in (
                'pop', 'unpack', 'unpack_from', 'get') for y in ast.walk(s.value))
            for t in s.targets:
                for n in ([dump(z) for z in t.elts] if isinstance(t, (ast.Tuple, ast.List)) else [dump(t)]):
                    if n in tests and n in dep and (lookup or any(('$look', z) in src for z in names_of(s.value))):
                        out.add(n)
                    if lookup or any(('$look', z) in src for z in names_of(s.value)):
                        src[('$look', n)] = True
                    src[n] = dep
    return out


def reach(ns, src):
    out = set(ns)
    for n in ns:
        out |= src.get(n, set())
    return out


def copies(w):
    """names that are equal to a chain variable on the way (x = s)"""
    out = {}
    for x in w:
        if x[0] == 'do' and isinstance(x[1], ast.Assign) and isinstance(x[1].value, (ast.Name, ast.Attribute)):
            for t in x[1].targets:
                if isinstance(t, (ast.Name, ast.Attribute)):
                    out[dump(t)] = dump(x[1].value)
    return out


def check(P, r):
    mods = [m for n, m in sorted(P.modules.items()) if n == MOD]
    if not mods:
        raise AnalysisError('no module ' + MOD)
    nloops = nchain = 0
    for m in mods:
        funcs = [(f, None) for f in m.functions.values()] + [(f, c) for c in m.classes.values() for f in c.methods.values()]
        for fi, cls in funcs:
            r.functions.add(fi.qual)
            for loop in [x for x in ast.walk(fi.node) if isinstance(x, ast.While)]:
                nloops += 1
                name = '%s, loop at line %d' % (fi.qual, loop.lineno - fi.node.lineno)
                with r.obligation(name):
                    if judge(P, r, m, cls, fi, loop, name):
                        nchain += 1
    r.count('while loops', nloops)
    r.count('chain loops', nchain)
    if not nchain:
        r.undecided('chains', 'no loop that follows a chain of sectors is found')


def judge(P, r, m, cls, fi, loop, name):
    W = Ways(P, m, cls)
    tests = [()] if isinstance(loop.test, ast.Constant) and loop.test.value else branch(loop.test, True, True)
    ways = [(t + w, e) for w, e in W.body(loop.body) for t in tests]
    cv = chain_vars(loop, ways)
    if not cv:
        r.ok(name, 'follows no chain')
        return False
    back = [w for w, e in ways if e in ('next', 'continue')]
    ch = set()
    for w in back:
        ch |= changed(w)
    bad = unsure = None
    n = 0
    for w in back:
        r.count('ways round')
        if contradict(w):
            continue
        n += 1
        v = set(cv)
        for a, b in copies(w).items():
            if b in v:
                v.add(a)
        text, doubt = certificate(w, v, ch, back)
        if text:
            continue
        calls = [dump(y.func).split('.')[-1] for x in w if x[0] in ('do', 'inner', 'cond') for y in ast.walk(x[1])
                 if isinstance(y, ast.Call)]
        odd = [c for c in calls if c not in INERT | GROW | SHRINK | {'extend', 'index', 'get', 'dump'}]
        if doubt:
            unsure = doubt
        elif odd:
            unsure = 'calls %s' % odd[0]
        else:
            conds = ['%s%s' % ('' if t else 'not ', dump(e)) for i, e, t in facts(w)]
            bad = 'a way round the loop with %s neither meets a mark nor moves a bounded counter' % (' and '.join(conds) or 'no test')
    if bad:
        r.viol(name, '%s follows %s: %s' % (fi.qual, ', '.join(sorted(cv)), bad), where='%s:%d' % (m.rel, loop.lineno))
    elif unsure:
        r.undecided(name, unsure)
    else:
        r.ok(name, '%d ways' % n)
    return True


def contradict(w):
    """the same test of an unchanged expression with both outcomes"""
    seen = {}
    for i, x in enumerate(w):
        if x[0] == 'cond':
            for _, e, t in facts([x]):
                k = dump(e)
                if seen.get(k, t) != t:
                    return True
                seen[k] = t
        else:
            c = changed([x])
            if c:
                for k in list(seen):
                    try:
                        if names_of(ast.parse(k.replace('$', '_'), mode='eval')) & c:
                            del seen[k]
                    except SyntaxError:
                        del seen[k]
    return False
