RULE = """Typestate of the workbook's resources.  open_workbook is interpreted down to every function that opens, maps or closes
something; the parsing functions below it are summarised (may raise anywhere, assign the attributes they assign, return an
alias of an argument only where their return statements do).  Every library call may raise.  On every outcome with on_demand
off, every file, memory map and zip archive opened must be closed; with on_demand on, they must be closed when open_workbook
raises, after release_resources and at the end of a with block (also when the block raises), and the mapping the sheets are
still to be read from must be open until then."""
TECHNIQUE = 'interprocedural typestate analysis over all normal and exceptional paths, with alias and effect summaries'
import ast
from .common import *       # noqa
from .readscene import *    # noqa
from .scen import spec

X = 'channelpack.xlrd'
OPENERS = {'open', 'ZipFile', 'mmap', 'close', 'fdopen', 'closing', 'ExitStack', 'release_resources'}
MUT = {'append', 'extend', 'insert', 'update', 'setdefault', 'clear', 'pop', 'add'}
USE = '''
from channelpack.xlrd import open_workbook


def plain(filename, **kw):
    return open_workbook(filename, **kw)


def released(filename, **kw):
    wb = open_workbook(filename, **kw)
    wb.release_resources()
    return wb


def block(filename, func, **kw):
    with open_workbook(filename, **kw) as wb:
        func(wb)
    return wb
'''


def called(node, mods=()):
    """names called: 'f' plainly or through a module, '.f' as a method"""
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name):
                out.add(f.id)
            elif isinstance(f, ast.Attribute):
                plain = isinstance(f.value, ast.Name) and f.value.id in mods
                out.add(f.attr if plain or f.attr in OPENERS - {'open'} else '.' + f.attr)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            out.add('.__exit__')
    return out


class Effects(object):
    """by-name call graph of the package: which functions may touch a resource, which attributes they assign"""

    def __init__(self, P):
        self.fns = [f for f in P.functions if f.qual.startswith(X)]
        self.calls, self.stores, self.wide = {}, {}, set()
        mods = {m.split('.')[-1] for m in P.modules} | {'io', 'os', 'codecs', 'zipfile', 'mmap', 'gzip', 'contextlib'}
        by = self.by = {}
        consts = {}
        for f in self.fns:
            q = f.qual
            self.calls[q] = called(f.node, mods)
            self.stores[q] = set()
            consts[q] = set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and n.value.value is not None:
                    consts[q] |= {t.attr for t in n.targets if isinstance(t, ast.Attribute)}
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    self.stores[q].add(n.attr)
                    if not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
                        self.wide.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and \
                        isinstance(n.func.value, ast.Attribute):
                    self.stores[q].add(n.func.value.attr)
                    self.wide.add(n.func.value.attr)
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Attribute):
                    self.stores[q].add(n.value.attr)
                    self.wide.add(n.value.attr)
            for c in self.names(q):
                by.setdefault(c, []).append(q)
        self.touch = {q for q, c in self.calls.items() if c & OPENERS}
        held = self.held = set()            # attributes that may hold a resource
        for f in self.fns:
            if f.qual not in self.touch:
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'close' and \
                        isinstance(n.func.value, ast.Attribute):
                    held.add(n.func.value.attr)
                if isinstance(n, ast.Assign) and called(n.value, mods) & OPENERS:
                    held |= {t.attr for t in n.targets if isinstance(t, ast.Attribute)}
        # the names alone say too little: only those of the classes that handle resources
        cls = {q.rsplit('.', 1)[0] for q in self.touch if self.stores[q] & held}
        own = {q for q, s in self.stores.items() if s & held and q.rsplit('.', 1)[0] in cls}
        init = {q for q in own if not (self.stores[q] & held) - consts[q]}
        self.touch |= own - init
        self.inline = set(self.touch)
        work = True
        while work:
            names = {n for q in self.inline for n in self.names(q)}
            new = {q for q, c in self.calls.items() if q not in self.inline and c & names}
            self.inline |= new
            work = bool(new)
        self.inline |= init | {f.qual for f in self.fns if f.qual.split('.')[-1] in ('__enter__', '__exit__')}

    @staticmethod
    def names(q):
        """how a function may be called"""
        p = q.split('.')
        if p[-1] == '__init__':
            return [p[-2]]
        return ['.' + p[-1]] if p[-2][:1].isupper() else [p[-1]]

    def assigned(self, q, cls=None):
        """attributes of an instance of cls that calling q may assign"""
        seen, out, todo = set(), set(), [q]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            mine = cls is None or x.rsplit('.', 1)[0] == cls
            out |= self.stores[x] if mine else self.stores[x] & self.wide
            for c in self.calls[x]:
                todo += self.by.get(c, ())
        return out - self.held


class Stub(object):
    """may-raise summary of a function that handles no resource"""
    n = 0

    def __init__(self, scene, fi):
        self.sc, self.fi = scene, fi
        self.q = fi.qual

    def fresh(self, what):
        Stub.n += 1
        return Sym('%s.%s#%d' % (self.q.split('.')[-1], what, Stub.n), 'any')

    def __call__(self, E, st, b):
        me = b.get('self')
        s = E.implicit(st, T('stub', self.q, self.fresh('')), 'Exception')
        if s is None:
            return []
        if isinstance(me, Ref) and s.get(me).kind == 'inst':
            o = s.mut(me)
            for a in self.sc.fx.assigned(self.q, getattr(o.cls, 'qual', None)):
                if a in o.attrs or self.q.endswith('.__init__'):
                    o.attrs[a] = self.fresh(a)
            if self.q.endswith('.__init__'):
                for n in ast.walk(self.fi.node):
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in b:
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                                o.attrs[t.attr] = b[n.value.id]
        for k, v in b.items():
            if k != 'self' and isinstance(v, Ref) and s.get(v).kind == 'inst':
                o = s.get(v)
                if not isinstance(o.cls, str):
                    o = s.mut(v)
                    for a in self.sc.fx.assigned(self.q, o.cls.qual):
                        if a in o.attrs:
                            o.attrs[a] = self.fresh(a)
        if self.q.endswith('.__init__'):
            return [(s, NONE)]
        outs = []
        for v in self.returns(s, self.fi, b, 0):
            outs.append((s.copy(), v))
        return outs

    def returns(self, s, fi, b, depth):
        rets = [n.value for n in ast.walk(fi.node) if isinstance(n, ast.Return)]
        out = []
        if not rets or fi.is_gen:
            return [NONE] if not fi.is_gen else [self.fresh('gen')]
        for n in rets:
            for v in self.value(s, fi, b, n, depth):
                key = tuple(x if isinstance(x, (Ref, K)) else '?' for x in v.items) if isinstance(v, Tup) else \
                    v if isinstance(v, (Ref, K)) else '?'
                if key not in [k for k, _ in out]:
                    out.append((key, v))
        return [v for _, v in out][:6]

    def value(self, s, fi, b, n, depth):
        if n is None:
            return [NONE]
        if isinstance(n, ast.Constant):
            return [K(n.value)]
        if isinstance(n, ast.Name) and isinstance(b.get(n.id), Ref):
            if any(isinstance(x, ast.Name) and x.id == n.id and isinstance(x.ctx, ast.Store) for x in ast.walk(fi.node)):
                return [b[n.id], self.fresh(n.id)]
            return [b[n.id]]
        if isinstance(n, ast.Name) and n.id not in b and depth < 4:
            src = [x.value for x in ast.walk(fi.node) if isinstance(x, ast.Assign) and
                   any(isinstance(t, ast.Name) and t.id == n.id for t in x.targets)]
            outs = []
            for x in src[:4]:
                outs += self.value(s, fi, b, x, depth + 1)
            return outs or [self.fresh(n.id)]
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and isinstance(b.get(n.value.id), Ref):
            o = s.get(b[n.value.id])
            if o.kind == 'inst' and isinstance(o.attrs.get(n.attr), Ref):
                return [o.attrs[n.attr]]
        if isinstance(n, ast.Tuple):
            outs = [()]
            for e in n.elts:
                outs = [x + (y,) for x in outs for y in self.value(s, fi, b, e, depth)]
            return [Tup(x) for x in outs[:4]]
        if isinstance(n, ast.Call) and depth < 4 and isinstance(n.func, ast.Attribute) and \
                isinstance(n.func.value, ast.Name) and n.func.value.id == 'self' and isinstance(b.get('self'), Ref):
            o = s.get(b['self'])
            m = o.cls.find(n.func.attr) if hasattr(o.cls, 'find') else None
            m = m or next((f for f in self.sc.fx.fns if f.qual == '%s.%s' % (fi.qual.rsplit('.', 1)[0], n.func.attr)), None)
            if m is not None and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
                names = [a.arg for a in m.node.args.args]
                b2 = {'self': b['self']}
                for a, e in zip(names[1:], n.args):
                    v = self.value(s, fi, b, e, depth)
                    b2[a] = v[0]
                return self.returns(s, m, b2, depth + 1)
        return [self.fresh('value')]


class Scene(ReadScene):
    def __init__(self, P, observers):
        self.fx = Effects(P)
        op = {f.qual: Stub(self, f) for f in self.fx.fns if f.qual not in self.fx.inline}
        self.inlined = sorted(self.fx.inline)
        ReadScene.__init__(self, P, op, observers, may_raise=True)
        E = self.E
        E.max_steps = 400000
        # what a summarised function returns holds no resource unless it is an alias
        E.hasattr_hooks.append(lambda E, st, v, n: FALSE if n == 'close' and any(
            isinstance(x, Sym) and '#' in x.name for x in walk(v)) else None)


class Watch(object):
    def __init__(self):
        self.opens, self.late, self.sites = 0, [], {}

    def __call__(self, kind, st, info):
        if kind == 'open':
            self.opens += 1
            fi, node = info.get('fi'), info.get('node')
            self.sites[info['file']] = '%s:%s' % (fi.mod.rel if fi else '?', getattr(node, 'lineno', '?'))
        elif kind == 'closedread':
            self.late.append((bool(st.taint), where_of(info)))


CASES = [
    ('plain', {}, 'a workbook'),
    ('plain', {'use_mmap': K(False)}, 'a workbook without mmap'),
    ('plain', {'verbosity': K(1)}, 'a workbook with messages'),
    ('plain', {'formatting_info': K(True)}, 'a workbook with formatting_info'),
    ('plain', {'on_demand': K(True)}, 'a workbook on demand'),
    ('released', {'on_demand': K(True)}, 'a workbook on demand, then release_resources'),
    ('released', {}, 'a workbook, then release_resources'),
    ('block', {'on_demand': K(True)}, 'a workbook on demand in a with block'),
    ('block', {}, 'a workbook in a with block'),
    ('block', {'on_demand': K(True), 'use_mmap': K(False)}, 'a workbook on demand without mmap in a with block'),
]


def check(P, r):
    P.func(X + '.open_workbook')
    spec(P, USE, 'verif_open')
    for fn, kw, name in CASES:
        with r.obligation(name):
            one(P, r, fn, kw, name)


def one(P, r, fn, kw, name):
    w = Watch()
    sc = Scene(P, [w])
    E = sc.E
    st = sc.st
    args = [Sym('filename', 'str')]
    if fn == 'block':
        args.append(Sym('func', 'function'))
    outs = sc.run('verif_open.' + fn, args, kw)
    r.engine(E)
    kept = fn == 'plain' and kw.get('on_demand') == TRUE
    rets = 0
    where = '%s (open_workbook)' % P.func(X + '.open_workbook').mod.rel
    for kind, s, v in outs:
        r.count('exits')
        rets += kind == 'return'
        how = 'returns' if kind == 'return' else 'raises %s at %s' % (v.name, v.site)
        for k, o in s.heap.items():
            if getattr(o, 'kind', None) != 'inst' or o.cls not in ('file', 'zip', 'mmap') or '$closed' not in o.attrs:
                continue
            r.count('resources followed to an exit')
            if o.attrs['$closed'] == TRUE:
                continue
            if kept and kind == 'return' and o.cls == 'mmap' and demand(E, s, v) is not False:
                continue
            at = o.label.split('@')[-1]
            if s.taint:
                r.undecided(name, 'open %s on a path that depends on unknown: %s' % (o.cls, s.taint[:1]))
            else:
                r.viol('leak', '%s: the %s opened at %s is still open when it %s' % (name, o.cls, at, how), at)
        if kept and kind == 'return' and isinstance(v, Ref) and s.get(v).kind == 'inst' and demand(E, s, v) is True:
            m = s.get(v).attrs.get('mem')
            if m == NONE or isinstance(m, Ref) and s.get(m).kind == 'inst' and s.get(m).attrs.get('$closed') == TRUE:
                if s.taint:
                    r.undecided(name, 'closed map on a path that depends on unknown')
                else:
                    r.viol('early', '%s: the book is returned on demand with its data already released' % name, where)
    for taint, at in w.late:
        if not taint:
            r.viol('late', '%s: something closed is read at %s' % (name, at), at)
    if not rets:
        r.undecided(name, 'no normal outcome')
    if not w.opens:
        r.undecided(name, 'no file seen to be opened')
    r.count('opening events', w.opens)


def demand(E, s, v):
    """does the returned book say that sheets are still to be loaded"""
    if not isinstance(v, Ref) or s.get(v).kind != 'inst':
        return None
    d = s.get(v).attrs.get('on_demand')
    return None if d is None else E.truth(d, s)
