"""Forward abstract interpreter over the syntax tree.

Disjunctive (trace partitioned) abstract states, fixpoints at loop heads,
joins of states that differ in facts only, helpers of the analysed program
inlined, everything else an uninterpreted term or unknown.  Nothing of the
analysed program is executed.
"""
import ast
import time
import builtins as _bi

from .values import (V, K, Sym, It, Old, T, Tup, Ref, Fn, Cls, Bound, Ext, Mod, Unk, Comp,
                     NONE, TRUE, FALSE, walk, has_unk, subst, lin_add, lin_scale, lin_parts,
                     lin_make, is_num, flags, F_REF, F_IT)
from .project import FuncInfo, ClassInfo, AnalysisError


class Budget(AnalysisError):
    pass


# ------------------------------------------------------------------ heap
class HObj(object):
    kind = '?'

    def copy(self):
        n = object.__new__(type(self))
        n.__dict__.update(self.__dict__)
        return n


class Frame(HObj):
    kind = 'frame'

    def __init__(self, fi, mod, parent, cls=None):
        self.vars, self.fi, self.mod, self.parent, self.captured = {}, fi, mod, parent, False
        self.nonlocals, self.globals = frozenset(), frozenset()
        self.localnames = None

    def copy(self):
        n = HObj.copy(self)
        n.vars = dict(self.vars)
        return n

    def content(self):
        return (self.fi.qual if self.fi else '', self.parent, tuple(sorted(self.vars.items())))


class Inst(HObj):
    """Instance of a program class (cls ClassInfo) or of an external one (str)."""
    kind = 'inst'

    def __init__(self, cls, label='', open_=False):
        self.cls, self.attrs, self.label, self.open = cls, {}, label, open_
        self.d = None           # Ref of the dict payload for dict subclasses

    def copy(self):
        n = HObj.copy(self)
        n.attrs = dict(self.attrs)
        return n

    def content(self):
        c = self.cls.qual if isinstance(self.cls, ClassInfo) else self.cls
        return (c, self.label, self.open, self.d, tuple(sorted(self.attrs.items(), key=lambda x: x[0])))


class DictObj(HObj):
    kind = 'dict'

    def __init__(self, base=None, nonempty=None, name=''):
        self.base, self.ents, self.lazy, self.name = base, (), {}, name
        self.nonempty = nonempty        # of base: True/False/None

    def copy(self):
        n = HObj.copy(self)
        n.lazy = dict(self.lazy)
        return n

    def content(self):
        return (self.base, self.ents, tuple(sorted(self.lazy.items(), key=repr)), self.name)


class ListObj(HObj):
    kind = 'list'

    def __init__(self, kind='list', segs=(), name=''):
        self.kind, self.segs, self.name = kind, tuple(segs), name

    def content(self):
        return (self.kind, self.segs, self.name)


class ArrObj(HObj):
    kind = 'array'

    def __init__(self, elem, length, dk=None, name='', base=None, ndim=1):
        self.elem, self.length, self.dk, self.name = elem, length, dk, name
        self.base, self.ndim, self.writes = base, ndim, 0

    def content(self):
        return (self.elem, self.length, self.dk, self.name, self.base, self.ndim)


MUTATORS = {'append', 'extend', 'insert', 'update', 'add', 'setdefault', 'pop', 'popitem', 'remove', 'discard', 'clear',
            'sort', 'reverse', 'appendleft', '__setitem__', '__delitem__'}
PURE_ARGS = {'len', 'print', 'sorted', 'max', 'min', 'sum', 'any', 'all', 'isinstance', 'dict', 'list', 'tuple', 'set',
             'frozenset', 'enumerate', 'zip', 'range', 'repr', 'str', 'iter', 'map', 'filter', 'namedtuple'}


def init_slice(body, name, p):
    """The statements of a module or class body that build `name`, when a plain
    assignment is not all there is; None otherwise."""
    out, mutated = [], False
    for st in body:
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
            continue
        hit = mut = False
        for x in ast.walk(st):
            if isinstance(x, (ast.Assign, ast.AnnAssign)):
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    if isinstance(t, ast.Name) and t.id == name:
                        hit = True
            elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name:
                mut = True
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and \
                    isinstance(x.value, ast.Name) and x.value.id == name:
                mut = True
            elif isinstance(x, ast.Call):
                f = x.func
                if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == name and \
                        f.attr in MUTATORS:
                    mut = True
                elif isinstance(st, ast.Expr) and not (isinstance(f, ast.Name) and f.id in PURE_ARGS) and any(
                        isinstance(a, ast.Name) and a.id == name for a in x.args):
                    mut = True
        if hit or mut:
            out.append(st)
        mutated = mutated or mut
    return out if mutated else None


class State(object):
    __slots__ = ('heap', 'facts', 'foralls', 'ghost', 'stack', 'taint', 'nid', 'loops', 'wcount', 'path')

    def __init__(self):
        self.heap, self.facts, self.foralls, self.ghost = {}, {}, frozenset(), {}
        self.stack, self.taint, self.nid, self.loops, self.wcount = (), (), 0, (), 0
        self.path = ()

    def copy(self):
        n = State.__new__(State)
        n.heap, n.facts, n.foralls, n.ghost = dict(self.heap), dict(self.facts), self.foralls, dict(self.ghost)
        n.stack, n.taint, n.nid, n.loops, n.wcount = self.stack, self.taint, self.nid, self.loops, self.wcount
        n.path = self.path
        return n

    def alloc(self, obj):
        self.nid += 1
        self.heap[self.nid] = obj
        return Ref(self.nid)

    def get(self, ref):
        return self.heap[ref.id if isinstance(ref, Ref) else ref]

    def mut(self, ref):
        i = ref.id if isinstance(ref, Ref) else ref
        o = self.heap[i].copy()
        self.heap[i] = o
        return o

    def frame(self):
        return self.heap[self.stack[-1]]


class Exc(object):
    """An exception outcome: class name, optional value, site."""
    def __init__(self, name, val=None, site='', implicit=False):
        self.name, self.val, self.site, self.implicit = name, val, site, implicit

    def __repr__(self):
        return 'raise %s@%s' % (self.name, self.site)


TYPES_OF_BUILTIN = {'int': 'int', 'str': 'str', 'bytes': 'bytes', 'float': 'float', 'bool': 'bool',
                    'list': 'list', 'tuple': 'tuple', 'dict': 'dict', 'set': 'set', 'type': 'type',
                    'frozenset': 'set', 'slice': 'slice', 'complex': 'complex'}
KNOWN_TYPES = {'int', 'bool', 'float', 'num', 'str', 'bytes', 'NoneType', 'list', 'tuple', 'dict', 'set',
               'ndarray', 'function', 'slice', 'type', 'file', 'module', 'range', 'datetime', 'object'}


class Engine(object):
    max_depth = 14
    max_steps = 400000
    max_heads = 40
    deadline = None             # wall clock limit of the whole check
    keep_apart = 8
    call_taint = True           # a branch on a function that is not modelled decides nothing
    known_calls = ()
    ext_name = ''               # the library function being called

    def __init__(self, project, observers=(), may_raise=False, opaque=(), models=None, max_states=400):
        self.p = project
        self.observers = list(observers)
        self.may_raise = may_raise
        self.eager_gens = False
        self.method_hooks, self.item_hooks, self.contains_hooks = [], [], []
        self.unroll = 16
        self.hasattr_hooks = []
        self.binop_hooks, self.cmp_hooks, self.file_hooks = [], [], []
        self.opaque = dict((q, q) for q in opaque) if not isinstance(opaque, dict) else opaque
        self.steps = 0
        self.sinks = [[]]
        self.handlers = []      # stack of lists of handled exception names
        self.callstack = []
        self.constcache = {}
        self.loopsums = {}
        self.max_states = max_states
        self.stats = dict(functions=set(), statements=0, loops=0, forks=0, states=0, unknown=0)
        self.notes = []
        self.cur = None
        self.loop_split = None
        self.no_induct = ()
        self.intkey_bases = set()
        self.yield_handler = []
        from . import models as M
        self.M = M
        self.models = dict(M.MODELS)
        if models:
            self.models.update(models)

    # ------------------------------------------------------------ utils
    def emit(self, kind, st, **info):
        info.setdefault('node', self.cur)
        info.setdefault('fi', self.callstack[-1] if self.callstack else None)
        for o in self.observers:
            o(kind, st, info)

    def site(self, node=None):
        node = node or self.cur
        fi = self.callstack[-1] if self.callstack else None
        return '%s:%s' % (fi.mod.rel if fi else '?', getattr(node, 'lineno', '?'))

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget('step budget exceeded at %s' % self.site())
        if self.steps % 64 == 0 and Engine.deadline and time.time() > Engine.deadline:
            raise Budget('time budget exceeded')

    def raise_(self, st, name, val=None, implicit=False):
        self.sinks[-1].append((st, Exc(name, val, self.site(), implicit)))

    def exc_matches(self, name, handler):
        """handler: list of names or None for bare except."""
        if handler is None:
            return True
        for h in handler:
            if h == name or h in ('Exception', 'BaseException'):
                if not (h == 'Exception' and name in ('KeyboardInterrupt', 'SystemExit', 'GeneratorExit')):
                    return True
            a, b = getattr(_bi, name, None), getattr(_bi, h, None)
            if isinstance(a, type) and isinstance(b, type) and issubclass(a, b):
                return True
            ci = next((c for c in self.p.classes.values() if c.name == name), None)
            if ci:
                for m in self.p.mro(ci):
                    mn = m.name if isinstance(m, ClassInfo) else m.split('.')[-1]
                    if mn == h:
                        return True
                    if mn != name and not isinstance(m, ClassInfo):
                        a = getattr(_bi, mn, None)
                        if isinstance(a, type) and isinstance(b, type) and issubclass(a, b):
                            return True
        return False

    def handled(self, name):
        return any(h is None or self.exc_matches(name, h) for hs in self.handlers for h in hs)

    def implicit(self, st, term, *names):
        """An operation that may raise: forks only if someone handles it, or in
        may_raise mode.  Returns the surviving state or None."""
        atom = T('raises', term)
        known = st.facts.get(atom)
        if known is False:
            return st
        if known is True and not any(self.handled(n) for n in names) and not self.may_raise:
            self.raise_(st, names[0], implicit=names[0] == 'Exception')
            return None
        for n in names:
            if self.handled(n) or self.may_raise:
                r = st.copy()
                r.facts[atom] = True
                self.raise_(r, n, implicit=True)
                if known is True:
                    return None
                if not self.may_raise:
                    st.facts[atom] = False
                return st
        return st

    # ------------------------------------------------------------ types
    def typeof(self, v, st):
        if isinstance(v, K):
            return type(v.v).__name__
        if isinstance(v, Tup):
            return 'tuple'
        if isinstance(v, (It, Old)):
            return 'int'
        if isinstance(v, Sym):
            return v.typ if v.typ != 'any' else None
        if isinstance(v, Comp):
            return 'generator'
        if isinstance(v, (Fn, Bound)):
            return 'function'
        if isinstance(v, Cls):
            return 'type'
        if isinstance(v, Ext):
            n = v.name.split('.')[-1]
            return 'type' if v.name.startswith('builtins.') and n in TYPES_OF_BUILTIN else None
        if isinstance(v, Ref):
            o = st.get(v)
            if o.kind in ('list', 'set', 'dict'):
                return o.kind
            if o.kind == 'tuple':
                return 'tuple'
            if o.kind == 'array':
                return 'ndarray'
            if o.kind == 'inst':
                return o.cls.qual if isinstance(o.cls, ClassInfo) else o.cls
            return o.kind
        if isinstance(v, T):
            if v.op in ('len', 'int', 'ord', 'pos', 'bits'):
                return 'int'
            if v.op in ('bstr', 'text', 'ieee'):
                return {'bstr': 'bytes', 'text': 'str', 'ieee': 'float'}[v.op]
            if v.op == 'lin':
                ts = {self.typeof(t, st) for t, _ in v.args[0]}
                return 'int' if ts <= {'int', 'bool'} and isinstance(v.args[1], int) else 'num'
            if v.op in ('not', 'eq', 'is', 'in', 'lt0', 'le0', 'isinst', 'truthy', 'raises', 'bool'):
                return 'bool'
            if v.op in ('mul', 'mod', 'floordiv', 'div', 'float', 'round'):
                return 'num' if v.op != 'float' else 'float'
            if v.op in ('str', 'repr', 'fmt', 'decode'):
                return 'str'
            if v.op == 'nan':
                return 'float'
            if v.op in ('rawbytes', 'rawcat'):
                return 'bytes'
            if v.op == 'rematch':
                return 're.Match'
            if v.op == 'trim':
                return self.typeof(v.args[0], st)
            if v.op == 'mcall':
                b = self.typeof(v.args[0], st)
                m = v.args[1]
                if b in ('str', 'bytes') and m in ('strip', 'lstrip', 'rstrip', 'replace', 'lower', 'upper',
                                                   'join', 'format', 'title'):
                    return b
                if m == 'decode':
                    return 'str'
                if m == 'encode':
                    return 'bytes'
                if m in ('split', 'rsplit', 'splitlines', 'groups'):
                    return 'list'
            if v.op in ('sorted', 'seqlist'):
                return 'list'
            if v.op == 'seqtuple':
                return 'tuple'
            if v.op == 'slice':
                return 'slice'
            if v.op in ('setof', 'setsub', 'setand', 'setor'):
                return 'set'
            if v.op == 'item':
                b = self.typeof(v.args[0], st)
                if b in ('str',) or (b == 'bytes' and isinstance(v.args[1], T) and v.args[1].op == 'slice'):
                    return b
            if v.op == 'type':
                return 'type'
            if v.op == 'key' and v.args[0] in self.intkey_bases:
                return 'int'
            if v.op in ('min', 'max') and len(v.args) == 1 and isinstance(v.args[0], T) and v.args[0].op == 'keys' \
                    and v.args[0].args[0] in self.intkey_bases:
                return 'int'
            if v.op == 'item' and isinstance(v.args[0], T) and v.args[0].op == 'sorted' and \
                    isinstance(v.args[0].args[0], T) and v.args[0].args[0].op == 'keys' and \
                    v.args[0].args[0].args[0] in self.intkey_bases:
                return 'int'
            if v.op == 'attr' and v.args[1] in ('start', 'stop') and isinstance(v.args[0], T) and \
                    v.args[0].op == 'item' and isinstance(v.args[0].args[0], T) and v.args[0].args[0].op == 'slices':
                return 'int'
            if v.op == 'cases':
                ts = {self.typeof(x, st) for _, x in v.args[0]}
                return ts.pop() if len(ts) == 1 else None
            if v.op == 'range':
                return 'range'
        return None

    def isinst(self, v, t, st):
        """Value of isinstance(v, t): K bool or an atom."""
        if isinstance(t, Tup):
            res = [self.isinst(v, x, st) for x in t.items]
            if any(r == TRUE for r in res):
                return TRUE
            res = [r for r in res if r != FALSE]
            if not res:
                return FALSE
            if len(res) == 1:
                return res[0]
            return T('isinst', v, tuple(sorted(repr(x) for x in t.items)))
        ty = self.typeof(v, st)
        if isinstance(v, Ref) and isinstance(st.get(v), Inst):
            o = st.get(v)
            if isinstance(o.cls, ClassInfo):
                mro = self.p.mro(o.cls)
                if isinstance(t, Cls):
                    return K(t.ci in mro)
                if isinstance(t, Ext):
                    return K(t.name in mro or t.name == 'builtins.object')
                return Unk('isinstance')
            if isinstance(t, Ext):
                return K(o.cls == t.name.split('.')[-1] or o.cls == t.name)
            if isinstance(t, Cls):
                return FALSE
        if isinstance(t, Cls):
            if ty == t.ci.qual:
                return TRUE
            if ty is not None and (ty in KNOWN_TYPES):
                return FALSE
            return T('isinst', v, t.ci.qual)
        if isinstance(t, Ext):
            n = t.name.split('.')[-1]
            if t.name == 'builtins.object':
                return TRUE
            if ty is not None:
                if n == ty or (n == 'int' and ty == 'bool') or (n == 'ndarray' and ty == 'ndarray'):
                    return TRUE
                if ty == 'num' and n in ('int', 'float'):
                    return T('isinst', v, n)
                if ty in KNOWN_TYPES and ty not in ('object', 'num'):
                    return FALSE
                if ty == 'num':
                    return FALSE
            return T('isinst', v, n)
        return Unk('isinstance')

    # ------------------------------------------------------------ truth & facts
    def atomize(self, v, st):
        """-> (atom term or K bool, polarity)"""
        pol = True
        while isinstance(v, T) and v.op == 'not':
            v, pol = v.args[0], not pol
        if isinstance(v, K):
            return K(bool(v.v)), pol
        if isinstance(v, T) and v.op in ('lt0', 'le0'):
            x, c = v.args[0], 0
            if isinstance(x, T) and x.op == 'lin' and len(x.args[0]) == 1 and x.args[0][0][1] == 1:
                x, c = x.args[0][0][0], x.args[1]
            if isinstance(x, T) and x.op == 'len' and c == (0 if v.op == 'le0' else -1):
                return self.atomize_nonempty(x.args[0], st), not pol
        if isinstance(v, T) and v.op == 'eq':
            for a, b in ((v.args[0], v.args[1]), (v.args[1], v.args[0])):
                if isinstance(a, K) and type(a.v) in (str, bytes) and not a.v and \
                        self.typeof(b, st) == type(a.v).__name__:
                    return self.atomize_nonempty(b, st), not pol
        if isinstance(v, T) and v.op in ('eq', 'is', 'in', 'lt0', 'le0', 'isinst', 'truthy', 'raises'):
            return v, pol
        if isinstance(v, T) and v.op == 'len':
            return self.atomize_nonempty(v.args[0], st), pol
        if isinstance(v, T) and v.op == 'bool':
            a, p2 = self.atomize(v.args[0], st)
            return a, pol == p2
        return self.atomize_nonempty(v, st), pol

    def atomize_nonempty(self, v, st):
        if isinstance(v, K):
            try:
                return K(bool(v.v))
            except Exception:
                return TRUE
        if isinstance(v, Tup):
            return K(bool(v.items))
        if isinstance(v, (Fn, Cls, Bound, Ext, Mod)) or isinstance(v, T) and v.op == 'rematch':
            return TRUE
        if isinstance(v, T) and v.op in ('bstr', 'text'):
            return K(v.args[0] > 0)
        if isinstance(v, T) and v.op == 'bits':
            if any(b == 1 for b in v.args[0]):
                return TRUE
            # which bits are looked at matters, not where they stand
            return T('truthy', T('bits', tuple(sorted((set(v.args[0]) | {v.args[1]}) - {0})), 0))
        if isinstance(v, Sym) and v.typ in ('function', 'file', 'object', 'module'):
            return TRUE
        if isinstance(v, T) and v.op in ('keys', 'values', 'items', 'sorted', 'seqlist', 'seqtuple', 'setof',
                                         'enumerate', 'reversed'):
            if v.op not in ('enumerate', 'reversed'):
                return self.atomize_nonempty(v.args[0], st)
        if isinstance(v, T) and v.op == 'dictmap':
            return self.atomize_nonempty(dict_root(v), st)
        if isinstance(v, T) and v.op == 'dictval' and v.args[0] is None:
            if any(e[0] == 'one' for e in v.args[1]):
                return TRUE
            if not v.args[1]:
                return FALSE
            if len(v.args[1]) == 1 and v.args[1][0][0] == 'comp':
                return self.atomize_nonempty(v.args[1][0][1], st)
        if isinstance(v, Comp) and not v.guards and len(v.src) == 1:
            return self.atomize_nonempty(v.src[0][0], st)
        if isinstance(v, T) and v.op in ('compress', 'slice', 'fmt0', 'gen'):
            return TRUE if v.op in ('slice', 'gen') else T('truthy', v)
        if isinstance(v, Ref):
            o = st.get(v)
            if o.kind == 'inst':
                if o.d is not None:
                    return self.atomize_nonempty(o.d, st)
                if isinstance(o.cls, ClassInfo):
                    if self.p.find_method(o.cls, '__len__') or self.p.find_method(o.cls, '__bool__'):
                        return T('truthy', v)
                return TRUE
            if isinstance(o, DictObj):
                if any(e[0] == 'one' for e in o.ents):
                    return TRUE
                if o.base is None and not o.ents:
                    return FALSE
                if o.base is not None and o.nonempty:
                    return TRUE
                if o.base is not None and o.nonempty is False and not o.ents:
                    return FALSE
                if o.base is not None and not o.ents:
                    return T('truthy', dict_root(o.base))
                if o.base is None:
                    return self.atomize_nonempty(T('dictval', o.base, o.ents), st)
                return T('truthy', T('dictval', o.base, o.ents))
            if isinstance(o, ListObj):
                if any(s[0] == 'one' for s in o.segs):
                    return TRUE
                if not o.segs:
                    return FALSE
                lv = self.listval(v, st)
                return self.atomize_nonempty(lv, st) if isinstance(lv, Comp) else T('truthy', lv)
            return T('truthy', v)
        return T('truthy', v)

    def lin_interval(self, d, st):
        """Bounds of linear form d from the facts: (lo, lo_strict, hi, hi_strict)."""
        parts, c = lin_parts(d)
        lo = hi = None
        los = his = False
        key = tuple(sorted(parts.items(), key=lambda x: repr(x[0])))
        neg = tuple(sorted(((t, -k) for t, k in parts.items()), key=lambda x: repr(x[0])))

        def add_hi(x, s):
            nonlocal hi, his
            if hi is None or x < hi or (x == hi and s):
                hi, his = x, s

        def add_lo(x, s):
            nonlocal lo, los
            if lo is None or x > lo or (x == lo and s):
                lo, los = x, s
        # structural bounds: lengths and iteration numbers are >= 0
        if parts and all(self._nonneg(t, st) for t in parts):
            if all(k > 0 for k in parts.values()):
                add_lo(0, False)
            if all(k < 0 for k in parts.values()):
                add_hi(0, False)
        for atom, val in st.facts.items():
            if not isinstance(atom, T):
                continue
            if atom.op in ('lt0', 'le0'):
                fp, fc = lin_parts(atom.args[0])
            elif atom.op == 'eq' and val:
                fp, fc = lin_parts(lin_add(atom.args[0], atom.args[1], -1)) if self.numeric(atom.args[0], st) \
                    and self.numeric(atom.args[1], st) else ({}, 0)
                if not fp:
                    continue
            else:
                continue
            fk = tuple(sorted(fp.items(), key=lambda x: repr(x[0])))
            if fk == key:
                sgn = 1
            elif fk == neg:
                sgn = -1
            else:
                continue
            # sgn*form + fc  (op) 0 , form = parts
            if atom.op == 'eq':
                x = -fc * sgn
                add_hi(x, False)
                add_lo(x, False)
            else:
                strict = (atom.op == 'lt0') == bool(val) if val else (atom.op == 'le0')
                if val:
                    strict = atom.op == 'lt0'
                    if sgn == 1:
                        add_hi(-fc, strict)
                    else:
                        add_lo(fc, strict)
                else:
                    strict = atom.op == 'le0'
                    if sgn == 1:
                        add_lo(-fc, strict)
                    else:
                        add_hi(fc, strict)
        if self._intform(parts, st):
            if lo is not None and los and lo == int(lo):
                lo, los = lo + 1, False
            if hi is not None and his and hi == int(hi):
                hi, his = hi - 1, False
        return (None if lo is None else lo + c, los, None if hi is None else hi + c, his)

    def _nonneg(self, t, st):
        if isinstance(t, T) and t.op == 'lin':
            return t.args[1] >= 0 and all(k > 0 and self._nonneg(x, st) for x, k in t.args[0])
        return isinstance(t, (It, Old)) or (isinstance(t, T) and t.op in ('len', 'runstart', 'size', 'max0'))

    def _intform(self, parts, st):
        return all(self.typeof(t, st) in ('int', 'bool') and isinstance(k, int) for t, k in parts.items())

    def numeric(self, v, st):
        return self.typeof(v, st) in ('int', 'num', 'float', 'bool') or isinstance(v, Unk) is False and \
            isinstance(v, T) and v.op in ('lin', 'mul')

    def truth(self, v, st):
        """True/False/None."""
        atom, pol = self.atomize(v, st)
        if isinstance(atom, K):
            return bool(atom.v) == pol
        r = self.atom_value(atom, st)
        return None if r is None else (r == pol)

    def atom_value(self, atom, st):
        if atom in st.facts:
            return st.facts[atom]
        if atom.op in ('lt0', 'le0'):
            lo, los, hi, his = self.lin_interval(atom.args[0], st)
            if atom.op == 'lt0':
                if hi is not None and (hi < 0 or (hi == 0 and his)):
                    return True
                if lo is not None and lo >= 0:
                    return False
            else:
                if hi is not None and hi <= 0:
                    return True
                if lo is not None and (lo > 0 or (lo == 0 and los)):
                    return False
        if atom.op == 'eq':
            a, b = atom.args
            if isinstance(b, K) and not isinstance(a, K):
                a, b = b, a
            if isinstance(a, K):
                # x == other constant known?
                for f, val in st.facts.items():
                    if val and isinstance(f, T) and f.op == 'eq' and b in f.args:
                        o = f.args[0] if f.args[1] == b else f.args[1]
                        if isinstance(o, K) and o != a and o.v != a.v:
                            return False
                    if isinstance(f, T) and f.op == 'in' and f.args[0] == b and isinstance(f.args[1], Tup) and \
                            all(isinstance(x, K) for x in f.args[1].items):
                        vals = [x.v for x in f.args[1].items]
                        if val and a.v not in vals:
                            return False
                        if not val and a.v in vals:
                            return False
                if a == NONE:
                    return self.atom_value(T('is', *self._order(b, NONE)), st)
                t = T('truthy', b)
                if t in st.facts and isinstance(a.v, (str, bytes, bool, int, float)):
                    if st.facts[t] and not a.v:
                        return False
                    if not st.facts[t] and a.v:
                        return False
            if self.numeric(a, st) and self.numeric(b, st):
                d = lin_add(a, b, -1)
                lo, los, hi, his = self.lin_interval(d, st)
                if lo is not None and (lo > 0 or (lo == 0 and los)):
                    return False
                if hi is not None and (hi < 0 or (hi == 0 and his)):
                    return False
                if lo == hi == 0:
                    return True
        if atom.op == 'truthy':
            v = atom.args[0]
            if T('is', *self._order(v, NONE)) in st.facts and st.facts[T('is', *self._order(v, NONE))]:
                return False
            if self.numeric(v, st):
                d = v
                lo, los, hi, his = self.lin_interval(d, st)
                if lo is not None and (lo > 0 or (lo == 0 and los)):
                    return True
                if lo == hi == 0 and lo is not None:
                    return False
            ln = T('len', v)
            lo, los, hi, his = self.lin_interval(ln, st)
            if lo is not None and (lo > 0):
                return True
            if hi is not None and hi <= 0:
                return False
            for f, val in st.facts.items():
                if val and isinstance(f, T) and f.op == 'eq' and v in f.args:
                    o = f.args[0] if f.args[1] == v else f.args[1]
                    if isinstance(o, K):
                        return bool(o.v)
                if val and isinstance(f, T) and f.op == 'in' and f.args[1] == v:
                    return True
        if atom.op == 'is':
            a, b = atom.args
            x = a if b == NONE else b if a == NONE else None
            if x is not None:
                if st.facts.get(T('truthy', x)):
                    return False
                ty = self.typeof(x, st)
                if ty is not None and ty != 'NoneType':
                    return False
                for f, val in st.facts.items():
                    if val and isinstance(f, T) and f.op == 'eq' and x in f.args:
                        o = f.args[0] if f.args[1] == x else f.args[1]
                        if isinstance(o, K) and o != NONE:
                            return False
                    if val and isinstance(f, T) and f.op == 'isinst' and f.args[0] == x and f.args[1] != 'NoneType':
                        return False
        if atom.op == 'in' and isinstance(atom.args[1], Tup):
            x = atom.args[0]
            res = [self.truth(self.cmp('==', x, y, st), st) for y in atom.args[1].items]
            if any(r is True for r in res):
                return True
            if all(r is False for r in res):
                return False
        if atom.op == 'isinst':
            for f, val in st.facts.items():
                if val and isinstance(f, T) and f.op == 'isinst' and f.args[0] == atom.args[0] and \
                        isinstance(f.args[1], str) and isinstance(atom.args[1], str) and f.args[1] != atom.args[1]:
                    a, b = f.args[1], atom.args[1]
                    if a == 'bool' and b == 'int':
                        return True
                    if a in TYPES_OF_BUILTIN and b in TYPES_OF_BUILTIN and b != 'bool':
                        return False
            if st.facts.get(T('is', *self._order(atom.args[0], NONE))):
                return False
        # universally quantified facts
        for f in st.foralls:
            src, loop, a, pol, guards = f
            m = match_index(a, It(loop), atom, src)
            if m is not None:
                g = [subst(x, {It(loop): m}) for x, _ in guards]
                if all(st.facts.get(x) == w for x, (_, w) in zip(g, guards)):
                    return pol
        return None

    def _order(self, a, b):
        return (a, b) if repr(a) <= repr(b) else (b, a)

    def assume(self, v, want, st):
        """Refine st (in place) with v being `want`; False if contradictory."""
        atom, pol = self.atomize(v, st)
        want = want == pol
        if isinstance(atom, K):
            return bool(atom.v) == want
        r = self.atom_value(atom, st)
        if r is not None:
            return r == want
        if has_unk(atom) or (self.call_taint and atom.op != 'raises' and any(
                isinstance(x, T) and (x.op in ('call', 'amethod') and x.args[0] not in self.known_calls or
                                      x.op == 'getattr' or
                                      x.op == 'mcall' and not hasattr(str, x.args[1]) and not
                                      (isinstance(x.args[0], T) and x.args[0].op == 'call' and
                                       x.args[0].args[0] in self.known_calls))
                for x in walk(atom))):
            st.taint = st.taint + (self.site(),) if len(st.taint) < 8 else st.taint
        st.facts[atom] = want
        # any()/all() over a comprehension give quantified facts
        if atom.op == 'truthy' and isinstance(atom.args[0], T) and atom.args[0].op in ('any', 'all'):
            q, c = atom.args[0].op, atom.args[0].args[0]
            if isinstance(c, Comp) and len(c.src) == 1 and ((q == 'any' and not want) or (q == 'all' and want)):
                a, p2 = self.atomize(c.elem, st)
                if not isinstance(a, K):
                    gs = []
                    for g in c.guards:
                        ga, gp = self.atomize(g, st)
                        gs.append((ga, gp))
                    st.foralls = st.foralls | {(c.src[0][0], c.src[0][1], a, (q == 'all') == p2, tuple(gs))}
        return True

    def branch(self, v, st):
        """-> list of (state, bool)"""
        r = self.truth(v, st)
        if r is not None:
            return [(st, r)]
        self.stats['forks'] += 1
        out = []
        t, f = st.copy(), st
        if self.assume(v, True, t):
            out.append((t, True))
        if self.assume(v, False, f):
            out.append((f, False))
        return out

    # ------------------------------------------------------------ comparisons
    def cmp(self, op, a, b, st):
        """Value of a comparison."""
        for h in self.cmp_hooks:
            r = h(self, st, op, a, b)
            if r is not None:
                return r
        if op == '!=':
            return self.neg(self.cmp('==', a, b, st))
        if op == 'is not':
            return self.neg(self.cmp('is', a, b, st))
        if op == 'not in':
            return self.neg(self.cmp('in', a, b, st))
        arr = [x for x in (a, b) if isinstance(x, Ref) and st.get(x).kind == 'array']
        if arr and op in ('==', '<', '<=', '>', '>='):
            ea, eb = self.elem_of(a, st), self.elem_of(b, st)
            ln = st.get(arr[0]).length
            if ea == eb and op == '==':
                e = T('selfeq', ea)
            else:
                e = self.cmp(op, ea, eb, st)
            return st.alloc(ArrObj(e, ln, 'b', 'cmp'))
        if op in ('==', '<', '<=', '>', '>='):
            sa, sb = self.const_set(a, st), self.const_set(b, st)
            if sa is not None and sb is not None:
                return K({'==': sa == sb, '<': sa < sb, '<=': sa <= sb, '>': sa > sb, '>=': sa >= sb}[op])
        if op == '==':
            if isinstance(a, K) and isinstance(b, K):
                return K(a.v == b.v)
            if isinstance(a, Tup) and isinstance(b, Tup):
                if len(a.items) != len(b.items):
                    return FALSE
                parts = [self.truth(self.cmp('==', x, y, st), st) for x, y in zip(a.items, b.items)]
                if any(p is False for p in parts):
                    return FALSE
                if all(p is True for p in parts):
                    return TRUE
            if isinstance(a, Ref) and isinstance(b, Ref) and a == b:
                return TRUE
            if a == b and not isinstance(a, Unk):
                if not any(isinstance(x, (Unk,)) for x in walk(a)) and self.typeof(a, st) in (
                        'int', 'str', 'bytes', 'bool', 'list', 'tuple', 'dict', 'set', 'type', 'slice', 'function',
                        'NoneType'):
                    return TRUE
            if isinstance(a, (Cls, Fn, Ext)) and isinstance(b, (Cls, Fn, Ext)):
                return K(a == b)
            la, lb = self.fixed_items(a, st), self.fixed_items(b, st)
            if isinstance(a, Ref) and isinstance(b, Ref) and la == [] and lb == []:
                return TRUE
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ref) and isinstance(st.get(x), DictObj) and self.truth(y, st) is False:
                    return self.neg(self.truthval(x, st))
                if isinstance(y, K) and y.v in (0,) and y.v is not False and isinstance(x, T) and x.op == 'len':
                    return self.neg(self.truthval(x.args[0], st))
            for x, y in ((a, b), (b, a)):
                if isinstance(x, T) and x.op == 'dtype' and x.args[1].v is not None:
                    dk = self.M.dtype_kind(y)
                    if dk is not None and dk != x.args[1].v:
                        return FALSE
                    if dk in ('b', 'O') and dk == x.args[1].v:
                        return TRUE
            ta, tb = self.typeof(a, st), self.typeof(b, st)
            if ta and tb and ta != tb and ta in KNOWN_TYPES and tb in KNOWN_TYPES:
                nums = {'int', 'num', 'float', 'bool'}
                if not (ta in nums and tb in nums) and 'object' not in (ta, tb) and 'ndarray' not in (ta, tb):
                    return FALSE
            return T('eq', *self._order(a, b))
        if op == 'is':
            if isinstance(a, K) and isinstance(b, K):
                return K(a == b)
            if isinstance(a, Ref) and isinstance(b, Ref):
                return K(a == b)
            if isinstance(a, (Fn, Cls, Ext, Bound)) and isinstance(b, (Fn, Cls, Ext, Bound)):
                return K(a == b)
            for x, y in ((a, b), (b, a)):
                if y == NONE:
                    ty = self.typeof(x, st)
                    if ty is not None and ty != 'NoneType':
                        return FALSE
                    if isinstance(x, (Fn, Cls, Ext, Tup, Ref, Bound, Comp)):
                        return FALSE
                if isinstance(y, K) and isinstance(y.v, bool):
                    ty = self.typeof(x, st)
                    if ty is not None and ty in KNOWN_TYPES and ty not in ('bool', 'object', 'num'):
                        return FALSE
                if isinstance(y, (Fn, Cls)) and isinstance(x, (K, Tup)):
                    return FALSE
                if isinstance(y, (Ext, Cls)) and isinstance(x, T) and x.op == 'type':
                    ty = self.typeof(x.args[0], st)
                    want = y.name.split('.')[-1] if isinstance(y, Ext) else y.ci.qual
                    if ty is not None and ty in KNOWN_TYPES and ty not in ('num', 'object'):
                        return K(ty == want)
                    return T('isinst', x.args[0], want)
            return T('is', *self._order(a, b))
        if op == 'in':
            return self.contains(a, b, st)
        if isinstance(a, K) and isinstance(b, K):
            try:
                return K({'<': a.v < b.v, '<=': a.v <= b.v, '>': a.v > b.v, '>=': a.v >= b.v}[op])
            except TypeError:
                return Unk('cmp')
        if self.typeof(a, st) == 'set' or self.typeof(b, st) == 'set':
            return T('truthy', T('setcmp', op, a, b))
        d = lin_add(a, b, -1)
        if op == '<':
            return self._lt(d, 'lt0')
        if op == '<=':
            return self._lt(d, 'le0')
        if op == '>':
            return self._lt(lin_scale(d, -1), 'lt0')
        if op == '>=':
            return self._lt(lin_scale(d, -1), 'le0')
        return Unk('cmp')

    def _lt(self, d, op):
        if isinstance(d, K):
            return K(d.v < 0 if op == 'lt0' else d.v <= 0)
        parts, c = lin_parts(d)
        first = sorted(parts.items(), key=lambda x: repr(x[0]))[0]
        if first[1] < 0:            # -x + c < 0  <=> not (x - c <= 0)
            nd = lin_scale(d, -1)
            return T('not', T('le0' if op == 'lt0' else 'lt0', nd))
        return T(op, d)

    def neg(self, v):
        if isinstance(v, K):
            return K(not v.v)
        if isinstance(v, T) and v.op == 'not':
            return v.args[0]
        return T('not', v)

    def truthval(self, v, st):
        a, p = self.atomize(v, st)
        return (K(bool(a.v) == p) if isinstance(a, K) else a if p else T('not', a))

    def contains(self, a, b, st):
        for h in self.contains_hooks:
            r = h(self, st, a, b)
            if r is not None:
                return r
        if isinstance(b, K) and isinstance(a, K):
            try:
                return K(a.v in b.v)
            except TypeError:
                return Unk('in')
        if isinstance(b, Tup):
            return self._in_items(a, b.items, st)
        if isinstance(b, T) and b.op == 'vars':
            ob = st.get(b.args[0])
            if isinstance(a, K) and (a.v in ob.attrs or not ob.open):
                return K(a.v in ob.attrs)
            return T('in', a, b)
        if isinstance(b, Ref):
            o = st.get(b)
            if o.kind == 'inst' and o.d is not None:
                b, o = o.d, st.get(o.d)
            if isinstance(o, ListObj):
                items = self.fixed_items(b, st)
                if items is not None:
                    return self._in_items(a, items, st)
                return T('in', a, self.listval(b, st))
            if isinstance(o, DictObj):
                r = [self.truth(self.cmp('==', e[1], a, st), st) for e in o.ents if e[0] == 'one']
                if any(x is True for x in r):
                    return TRUE
                if a in o.lazy:
                    return TRUE
                if all(x is False for x in r) and all(e[0] == 'one' for e in o.ents):
                    if o.base is None:
                        return FALSE
                    ty = self.typeof(a, st)
                    if getattr(o, 'intkeys', False) and ty in ('str', 'bytes', 'NoneType'):
                        return FALSE
                    return T('in', a, dict_root(o.base))
                return T('in', a, self.dictval(b, st))
        if isinstance(b, T) and b.op == 'dictval' and b.args[0] is None and all(e[0] == 'one' for e in b.args[1]):
            return self._in_items(a, [e[1] for e in b.args[1]], st)
        if isinstance(b, T) and b.op in ('keys', 'dictmap'):
            return self.contains(a, b.args[0], st)
        if isinstance(b, T) and b.op in ('setof', 'seqlist', 'seqtuple', 'sorted'):
            return self.contains(a, b.args[0], st)
        return T('in', a, b)

    def _in_items(self, a, items, st):
        res = [self.truth(self.cmp('==', a, x, st), st) for x in items]
        if any(r is True for r in res):
            return TRUE
        rest = [x for x, r in zip(items, res) if r is None]
        if not rest:
            return FALSE
        if len(rest) == 1:
            return self.cmp('==', a, rest[0], st)
        return T('in', a, Tup(sorted(set(rest), key=repr)))

    # ------------------------------------------------------------ containers
    def elem_of(self, v, st):
        if isinstance(v, Ref):
            o = st.get(v)
            if o.kind == 'array':
                return o.elem
        return v

    def fixed_items(self, v, st):
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o, ListObj) and all(s[0] == 'one' for s in o.segs):
                return [s[1] for s in o.segs]
            if o.kind == 'inst' and o.cls == 'generator' and isinstance(o.attrs.get('gen'), Tup) and \
                    isinstance(o.attrs.get('n'), K):
                if 'end' in o.attrs:
                    return None
                return list(o.attrs['gen'].items[o.attrs['n'].v:])
            if o.kind == 'inst' and o.cls == 'file' and isinstance(o.attrs.get('$lines'), Tup) and \
                    isinstance(o.attrs['$pos'], K):
                return list(o.attrs['$lines'].items[o.attrs['$pos'].v:])
            d = o if isinstance(o, DictObj) else st.get(o.d) if o.kind == 'inst' and getattr(o, 'd', None) else None
            if d is not None and d.base is None and all(e[0] == 'one' for e in d.ents) and \
                    (len(d.ents) == 1 or all(isinstance(e[1], K) for e in d.ents)):
                return [e[1] for e in d.ents]
        if isinstance(v, K) and isinstance(v.v, (str, tuple, bytes)) and len(v.v) <= 32:
            return [K(x) for x in v.v]
        if isinstance(v, T) and v.op == 'bstr':
            return self.byte_items(v)
        if isinstance(v, T) and v.op == 'vars':
            ob = st.get(v.args[0])
            if not ob.open and not any(k.startswith('$') for k in ob.attrs):
                return [K(k) for k in ob.attrs]
            return None
        if isinstance(v, T) and v.op == 'dictval' and v.args[0] is None and all(e[0] == 'one' for e in v.args[1]):
            return [e[1] for e in v.args[1]]
        if isinstance(v, T) and v.op == 'namedtuple' and isinstance(v.args[0].args[1], Tup):
            names = v.args[0].args[1].items
            kw = dict(v.args[2])
            if len(v.args[1].items) + len(kw) == len(names) and all(isinstance(n, K) for n in names) and \
                    all(n.v in kw for n in names[len(v.args[1].items):]):
                return list(v.args[1].items) + [kw[n.v] for n in names[len(v.args[1].items):]]
        return None

    def const_set(self, v, st):
        """A set of constants."""
        if isinstance(v, Ref) and v.id in st.heap:
            o = st.get(v)
            if isinstance(o, ListObj) and o.kind == 'set' and \
                    all(x[0] == 'one' and isinstance(x[1], K) for x in o.segs):
                return frozenset(x[1] for x in o.segs)
        return None

    def gen_end(self, v, st):
        """Name of the exception a fixed generator ends with."""
        if isinstance(v, Ref):
            o = st.get(v)
            if o.kind == 'inst' and o.cls == 'generator' and isinstance(o.attrs.get('gen'), Tup):
                if self.gen_closed(o, st):
                    self.emit('closedread', st, file=v)
                    return 'ValueError'
                if 'end' in o.attrs:
                    return o.attrs['end'].v
        return None

    def gen_closed(self, o, st):
        """A generator with values left to read from a file that is closed now."""
        n = o.attrs['n']
        if 'snaps' not in o.attrs or not isinstance(n, K):
            return False
        sn = o.attrs['snaps'].items
        a, b = sn[min(n.v, len(sn) - 1)], sn[-1]
        return any(x != y and st.get(x.items[0]).attrs.get('$closed') == TRUE for x, y in zip(a.items, b.items))

    def consume(self, v, st):
        """An iterator over a fixed sequence has been run to its end."""
        if isinstance(v, Ref):
            o = st.get(v)
            if o.kind == 'inst' and o.cls == 'generator' and isinstance(o.attrs.get('gen'), Tup):
                n = o.attrs['n']
                st.mut(v).attrs['n'] = K(len(o.attrs['gen'].items))
                if 'snaps' in o.attrs:
                    if isinstance(n, K) and self.positions_differ(st, o.attrs['snaps'].items[n.v]):
                        st.taint = st.taint + ('generator resumed at another file position',)
                    self.gen_at(st, o.attrs['snaps'].items[-1])
            elif o.kind == 'inst' and o.cls == 'file' and isinstance(o.attrs.get('$lines'), Tup):
                st.mut(v).attrs['$pos'] = K(len(o.attrs['$lines'].items))

    def positions_differ(self, st, snap):
        return any(st.get(x.items[0]).attrs['$pos'] != x.items[1] for x in snap.items)

    def listval(self, ref, st):
        """Immutable description of a list's content."""
        o = st.get(ref)
        if len(o.segs) == 1 and o.segs[0][0] == 'seq':
            return o.segs[0][1]
        if all(s[0] == 'one' for s in o.segs):
            return Tup([s[1] for s in o.segs])
        return T('listval', o.segs)

    def dictval(self, ref, st):
        o = st.get(ref)
        if o.kind == 'inst':
            o = st.get(o.d)
        if not o.ents and o.base is not None:
            return o.base
        return T('dictval', o.base, o.ents)

    def seqval(self, v, st):
        """Immutable sequence description for iteration/zip etc."""
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o, ListObj):
                return self.listval(v, st)
            if isinstance(o, DictObj):
                return T('keys', dict_root(self.dictval(v, st)))
            if o.kind == 'inst' and o.d is not None:
                return T('keys', dict_root(self.dictval(o.d, st)))
            if o.kind == 'array':
                return T('elems', o.elem, o.length)
            if o.kind == 'inst' and o.cls == 'generator':
                if 'end' in o.attrs and not st.taint:
                    st.taint = ('use of a generator that ends with an error',)
                return o.attrs['gen'] if o.attrs['n'] == K(0) else T('rest', o.attrs['gen'], o.attrs['n'])
            if o.kind == 'inst' and o.cls == 'file':
                return T('lines', v)
        elif isinstance(v, (Sym, T)) and self.typeof(v, st) == 'dict':
            return T('keys', dict_root(v))
        return v

    def length(self, v, st):
        v = self.seqval(v, st)
        if isinstance(v, Tup):
            return K(len(v.items))
        if isinstance(v, K) and isinstance(v.v, (str, bytes, tuple)):
            return K(len(v.v))
        if isinstance(v, T):
            if v.op in ('bstr', 'text'):
                return K(v.args[0])
            if v.op == 'rawbytes' and isinstance(v.args[2], K):
                return v.args[2]
            if v.op == 'rawcat':
                return K(sum(len(x.v) if isinstance(x, K) else x.args[2].v for x in v.args[0].items))
            if v.op == 'elems':
                return v.args[1]
            if v.op in ('enumerate', 'sorted', 'reversed', 'seqlist', 'seqtuple', 'keys', 'items', 'values', 'map'):
                src = v.args[0] if v.op != 'map' else v.args[1]
                if v.op in ('keys', 'items', 'values'):
                    return self.dict_length(src, st)
                return self.length(src, st)
            if v.op == 'zip':
                ls = [self.length(x, st) for x in v.args]
                if ls and all(x == ls[0] for x in ls):
                    return ls[0]
                return T('min', *sorted(ls, key=repr)) if ls else K(0)
            if v.op == 'range':
                a, b, s = v.args
                if s == K(1):
                    if a == K(0):
                        return b if self._nonneg(b, st) or isinstance(b, K) else T('max0', b)
                    return lin_add(b, a, -1) if True else None
            if v.op == 'repeat' and isinstance(v.args[0], Tup) and len(v.args[0].items) == 1:
                n = v.args[1]
                return n if self._nonneg(n, st) or isinstance(n, K) else T('max0', n)
        if isinstance(v, Comp) and not v.guards and len(v.src) == 1:
            return self.length(v.src[0][0], st)
        return T('len', v)

    def canon_dict(self, st, ref):
        """{k: f(k) for k in D} is described as a map over D."""
        o = st.get(ref)
        if len(o.ents) != 1 or o.ents[0][0] != 'comp':
            return
        c = o.ents[0][1]
        if len(c.src) != 1 or c.guards or not isinstance(c.elem, Tup) or len(c.elem.items) != 2:
            return
        S, l = c.src[0]
        if not (isinstance(S, T) and S.op in ('keys', 'items')):
            return
        D = S.args[0]
        if o.base is not None:
            # every key of the base must be overwritten
            b = dict_root(o.base)
            if b != D and st.facts.get(T('eq', *self._order(T('keys', b), T('keys', D)))) is not True:
                return
        k, v = c.elem.items
        if k != T('key', D, It(l)):
            return
        v2 = subst(v, {k: Sym('$k')})
        if any(x == It(l) for x in walk(v2)):
            return
        m = st.mut(ref)
        m.base, m.ents, m.lazy = T('dictmap', dict_root(o.base) if o.base is not None else D, v2), (), {}
        if o.base is None:
            m.nonempty = None
        m.factory = map_factory

    def dict_length(self, d, st):
        d = dict_root(d)
        if isinstance(d, T) and d.op == 'dictval' and d.args[0] is None:
            ents = d.args[1]
            if not ents:
                return K(0)
            if all(e[0] == 'one' and (len(ents) == 1 or isinstance(e[1], K)) for e in ents):
                return K(len(ents))
            if len(ents) == 1 and ents[0][0] == 'comp' and not ents[0][1].guards and len(ents[0][1].src) == 1 \
                    and isinstance(ents[0][1].src[0][0], T) and ents[0][1].src[0][0].op in ('keys', 'items'):
                return self.dict_length(ents[0][1].src[0][0].args[0], st)
        return T('len', d)

    def elem_at(self, v, i, st):
        """Element i (a value) of sequence description v.  May add facts to st."""
        if isinstance(v, Tup):
            if isinstance(i, K) and isinstance(i.v, int) and -len(v.items) <= i.v < len(v.items):
                return v.items[i.v]
            if v.items and all(x == v.items[0] for x in v.items):
                return v.items[0]
            return T('item', v, i)
        if isinstance(v, T):
            if v.op == 'elems':
                return T('item', v, i) if not isinstance(v.args[0], T) else self.index_elem(v.args[0], i)
            if v.op == 'enumerate':
                return Tup([lin_add(i, v.args[1]), self.elem_at(v.args[0], i, st)])
            if v.op == 'zip':
                return Tup([self.elem_at(x, i, st) for x in v.args])
            if v.op == 'range':
                if isinstance(v.args[2], K):
                    return lin_add(v.args[0], lin_scale(i, v.args[2].v))
            if v.op in ('keys', 'items', 'values'):
                pair = self.dict_pair(v.args[0], i, st)
                return pair if v.op == 'items' else pair.items[0 if v.op == 'keys' else 1]
            if v.op == 'map' and len(v.args) == 2:
                return T('mapped', v.args[0], self.elem_at(v.args[1], i, st))
            if v.op == 'rest':
                return self.elem_at(v.args[0], lin_add(i, v.args[1]), st)
            if v.op in ('seqlist', 'seqtuple'):
                return self.elem_at(v.args[0], i, st)
            if v.op == 'repeat' and isinstance(v.args[0], Tup) and len(v.args[0].items) == 1:
                return v.args[0].items[0]
        if isinstance(v, Comp) and len(v.src) == 1:
            s, lp = v.src[0]
            if not v.guards:
                return subst(v.elem, {It(lp): i})
            j = T('pick', v, i)
            m = {It(lp): j}
            for g in v.guards:
                self.assume(subst(g, m), True, st)
            return subst(v.elem, m)
        return T('item', v, i)

    def dict_pair(self, d, i, st):
        """(key, value) number i of a dict description."""
        if isinstance(d, T) and d.op == 'dictval' and d.args[0] is None and len(d.args[1]) == 1:
            e = d.args[1][0]
            if e[0] == 'comp' and len(e[1].src) == 1 and isinstance(e[1].elem, Tup):
                return self.elem_at(e[1], i, st)
        if isinstance(d, T) and d.op == 'dictmap':
            k = T('key', dict_root(d), i)
            return Tup([k, subst(d.args[1], {Sym('$k'): k})])
        k = T('key', d, i)
        return Tup([k, T('item', d, k)])

    def index_elem(self, e, i):
        """Element i of an array whose generic element is e."""
        return subst_at(e, i)

    # ------------------------------------------------------------ signatures, joins, GC
    def signature(self, st, with_facts=True):
        order, ids = [], {}

        def rid(i):
            if i not in ids:
                ids[i] = len(ids)
                order.append(i)
            return ids[i]

        def conv(x):
            if isinstance(x, Ref):
                return ('R', rid(x.id))
            if isinstance(x, Fn):
                return ('F', id(x.fi.node), None if x.frame is None else rid(x.frame))
            if isinstance(x, V):
                if flags(x) & F_REF:
                    return (type(x).__name__,) + tuple(conv(a) for a in (
                        x.args if isinstance(x, T) else x.items if isinstance(x, Tup)
                        else (x.fn, x.self) if isinstance(x, Bound)
                        else (x.src, x.guards, x.elem) if isinstance(x, Comp) else ())) + (
                            (x.op,) if isinstance(x, T) else ())
                return x
            if isinstance(x, tuple):
                return tuple(conv(a) for a in x)
            if isinstance(x, frozenset):
                return frozenset(conv(a) for a in x)
            return x
        out = [tuple(rid(i) for i in st.stack), conv(tuple(sorted(st.ghost.items())))]
        n = 0
        while n < len(order):
            o = st.heap[order[n]]
            out.append(conv(o.content()))
            if o.kind == 'frame' and o.parent is not None:
                out.append(rid(o.parent))
            n += 1
        out.append(bool(st.taint))
        if with_facts:
            out.append(frozenset((conv(a), b) for a, b in st.facts.items()))
            out.append(st.foralls)
        return tuple(out), ids

    def merge(self, states):
        """Join states that differ in facts only."""
        if len(states) < 2:
            return states
        if not any(st.loops for st in states):
            # outside loops a few alternatives are kept apart, so that later
            # tests on the same condition stay correlated
            uniq, sigs = [], set()
            for st in states:
                sig = self.signature(st)[0]
                if sig not in sigs:
                    sigs.add(sig)
                    uniq.append(st)
            if len(uniq) <= self.keep_apart:
                return uniq
            states = uniq
        groups = {}
        res = []
        for st in states:
            sig, ids = self.signature(st, with_facts=False)
            if sig in groups:
                o, oids = groups[sig]
                # facts must be compared modulo renaming of references
                ren = {Ref(i): Ref(next(k for k, v in oids.items() if v == n)) for i, n in ids.items()}
                fac = {}
                for a, b in st.facts.items():
                    fac[subst(a, ren) if any(isinstance(y, Ref) for y in walk(a)) else a] = b
                for a in list(o.facts):
                    if fac.get(a) != o.facts[a]:
                        del o.facts[a]
                o.foralls = o.foralls & st.foralls
                o.taint = o.taint or st.taint
            else:
                groups[sig] = (st, ids)
                res.append(st)
        if len(res) > self.max_states:
            raise Budget('more than %d states at %s' % (self.max_states, self.site()))
        return res

    # ------------------------------------------------------------ entry points
    def new_state(self):
        st = State()
        return st

    def call(self, fn, args, kwargs, st, node=None):
        """Call an abstract callable.  -> list of (state, value)"""
        self.tick()
        if isinstance(fn, Bound):
            if isinstance(fn.fn, T) and fn.fn.op == 'method':
                return self.M.call_method(self, st, fn.self, fn.fn.args[0], list(args), dict(kwargs))
            return self.call(fn.fn, [fn.self] + list(args), kwargs, st, node)
        if isinstance(fn, Fn):
            return self.call_fn(fn, args, kwargs, st)
        if isinstance(fn, Cls):
            return self.instantiate(fn.ci, args, kwargs, st)
        if isinstance(fn, Ext):
            self.emit('extcall', st, name=fn.name, args=args, kwargs=kwargs)
            m = self.models.get(fn.name)
            self.ext_name = fn.name.split('.')[-1]
            if m is not None:
                return m(self, st, list(args), dict(kwargs))
            return self.M.default_ext(self, st, fn.name, list(args), dict(kwargs))
        if isinstance(fn, Ref):
            o = st.get(fn)
            if o.kind == 'inst' and isinstance(o.cls, ClassInfo):
                m = self.p.find_method(o.cls, '__call__')
                if m:
                    return self.call_fn(Fn(m), [fn] + list(args), kwargs, st)
        if isinstance(fn, T) and fn.op == 'attr':
            return self.M.call_method(self, st, fn.args[0], fn.args[1], list(args), dict(kwargs))
        if isinstance(fn, T) and fn.op == 'method':
            return self.M.call_method(self, st, args[0], fn.args[0], list(args[1:]), dict(kwargs))
        if isinstance(fn, T) and fn.op == 'partial':
            a0 = list(fn.args[1])
            kw = dict(fn.args[2])
            kw.update(kwargs)
            return self.call(fn.args[0], a0 + list(args), kw, st, node)
        if isinstance(fn, T) and fn.op == 'cases':
            out = []
            for gs, f in fn.args[0]:
                s2 = st.copy()
                if all(self.assume(a, w, s2) for a, w in gs):
                    out += self.call(f, args, kwargs, s2, node)
            return out
        if isinstance(fn, T) and fn.op == 'ntclass':
            return [(st, T('namedtuple', fn, Tup(args), tuple(sorted(kwargs.items()))))]
        self.emit('dyncall', st, fn=fn, args=args, kwargs=kwargs)
        t = T('apply', fn, tuple(args), tuple(sorted(kwargs.items())))
        s = self.implicit(st, t, 'Exception')
        return [(s, t)] if s is not None else []

    def instantiate(self, ci, args, kwargs, st):
        o = Inst(ci)
        mro = self.p.mro(ci)
        ref = st.alloc(o)
        if 'builtins.dict' in mro:
            d = st.alloc(DictObj())
            st.mut(ref).d = d
            for c in mro:       # IntKeyDict style classes
                pass
        if any(isinstance(m, str) and m.startswith('builtins.') and
               (m.endswith('Error') or m.endswith('Exception')) for m in mro):
            return [(st, T('exc', ci.name, tuple(args)))]
        init = self.p.find_method(ci, '__init__')
        if init is None:
            if 'builtins.dict' in mro:
                return [(s, ref) for s, _ in self.M.dict_update(self, st, ref, args, kwargs)]
            return [(st, ref)]
        return [(s, ref) for s, _ in self.call_fn(Fn(init), [ref] + list(args), kwargs, st)]

    def bind_args(self, fi, args, kwargs, st, fn_frame=None):
        """-> dict name->value or None on mismatch.  '*' -> list of extra values."""
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        kwargs = dict(kwargs)
        star = kwargs.pop('*', None)
        dstar = kwargs.pop('**', None)
        extra = args[len(pos):]
        for n, v in zip(pos, args):
            out[n] = v
        if star is not None:
            if a.vararg and len(args) >= len(pos):
                pass
            else:
                missing = [n for n in pos if n not in out and n not in kwargs]
                for k, n in enumerate(missing):
                    out[n] = T('item', star, K(k))
                star = None
        kwonly = [x.arg for x in a.kwonlyargs]
        kwextra = {}
        for k, v in kwargs.items():
            if k in pos or k in kwonly:
                if k in out:
                    return None
                out[k] = v
            elif a.kwarg:
                kwextra[k] = v
            else:
                return None
        if extra and not a.vararg:
            return None
        if a.vararg:
            if star is not None and not extra:
                out[a.vararg.arg] = star
            else:
                out[a.vararg.arg] = Tup(extra)
        if a.kwarg:
            d = DictObj()
            d.ents = tuple(('one', K(k), v) for k, v in sorted(kwextra.items()))
            if dstar is not None:
                d.base = dstar
            out[a.kwarg.arg] = st.alloc(d)
            dstar = None
        defs = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        defs.update({k.arg: d for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for n in pos + kwonly:
            if n not in out:
                if dstar is not None:
                    dd = defs.get(n)
                    out[n] = T('kwget', dstar, K(n))
                    continue
                if n not in defs:
                    return None
                out[n] = self.const_expr(defs[n], fi.mod, st)
        return out

    def const_expr(self, node, mod, st):
        """Evaluate a module level/default expression without effects."""
        fr = Frame(None, mod, None)
        st.nid += 1
        fid = st.nid
        st.heap[fid] = fr
        st.stack = st.stack + (fid,)
        self.sinks.append([])
        try:
            r = self.ev(node, st)
        finally:
            self.sinks.pop()
        st.stack = st.stack[:-1]
        st.heap.pop(fid, None)
        if len(r) != 1:
            return Unk('const')
        s, v = r[0]
        if s is not st:
            return Unk('const')
        return v

    def call_fn(self, fn, args, kwargs, st):
        fi = fn.fi
        q = fi.qual
        if q in self.opaque or fi.is_gen:
            b = self.bind_args(fi, args, kwargs, st)
            if b is None:
                self.raise_(st, 'TypeError')
                return []
            if q in self.opaque:
                h = self.opaque[q]
                if callable(h):
                    return h(self, st, b)
            self.emit('opaque', st, qual=q, bound=b)
            op = 'gen' if fi.is_gen else 'fcall'
            b2 = tuple(sorted((k, v) for k, v in b.items()))
            t = T(op, q, b2)
            if fi.is_gen:
                if self.eager_gens:
                    r = self.eager_gen(fn, b, t, st)
                    if r is not None:
                        return r
                g = Inst('generator')
                g.attrs = {'gen': t, 'n': K(0), 'fn': fn}
                return [(st, st.alloc(g))]
            s = self.implicit(st, t, 'Exception')
            return [(s, t)] if s is not None else []
        if fi.otherdeco:
            self.notes.append('decorated %s not analysed' % q)
            return [(st, Unk('decorated ' + q))]
        depth = sum(1 for f in self.callstack if f is fi)
        if depth >= 5 or len(self.callstack) >= self.max_depth:
            self.notes.append('recursion/depth bound at %s' % q)
            st.taint = st.taint + ('call depth bound at %s' % q,)
            return [(st, Unk('depth ' + q))]
        b = self.bind_args(fi, args, kwargs, st, fn.frame)
        if b is None:
            self.raise_(st, 'TypeError')
            return []
        self.stats['functions'].add(q)
        fr = Frame(fi, fi.mod, fn.frame)
        fr.vars.update(b)
        fr.vars['$args'] = Tup([x for x in b.values() if isinstance(x, V)])
        fr.localnames = local_names(fi.node)
        st.nid += 1
        fid = st.nid
        st.heap[fid] = fr
        st.stack = st.stack + (fid,)
        self.callstack.append(fi)
        saved = self.cur
        try:
            if isinstance(fi.node, ast.Lambda):
                res = [(s, v) for s, v in self.ev(fi.node.body, st)]
                outs = [('return', s, v) for s, v in res]
            else:
                outs = self.block(fi.node.body, [st])
        finally:
            self.callstack.pop()
            self.cur = saved
        results = []
        for kind, s, v in outs:
            if kind == 'next':
                v = NONE
            elif kind == 'raise':
                self._pop_frame(s, fid)
                self.sinks[-1].append((s, v))
                continue
            elif kind in ('break', 'continue'):
                continue
            self._pop_frame(s, fid)
            results.append((s, v))
        # frames popped through the sinks of nested evaluation are handled there
        return self.join_results(results, Tup([x for x in b.values() if isinstance(x, V)]))

    def join_results(self, results, roots=NONE):
        """Merge call results whose states differ only by facts and values agree."""
        if len(results) < 2 or not results[0][0].stack:
            return results      # without frames nothing is reachable to tell states apart
        for s, v in results:
            s.ghost['$ret'] = Tup([v, roots])       # what the caller still holds
        sts = self.merge([s for s, v in results])
        out = []
        for s in sts:
            out.append((s, s.ghost.pop('$ret').items[0]))
        return out

    def _pop_frame(self, s, fid):
        if fid in s.stack:
            s.stack = s.stack[:s.stack.index(fid)]
        if fid in s.heap and not s.heap[fid].captured:
            del s.heap[fid]

    def run(self, fi, args, kwargs=None, st=None, self_=None):
        """Interpret function fi from its entry.  -> list of (kind, state, value)
        with kind return/raise."""
        st = st or self.new_state()
        self.sinks.append([])
        base = st.stack
        if fi.is_gen:
            res = self.run_gen(fi, args, kwargs or {}, st)
        else:
            res = [('return', s, v) for s, v in self.call_fn(Fn(fi), args, kwargs or {}, st)]
        sink = self.sinks.pop()
        return res + [('raise', s, e) for s, e in sink]

    def eager_gen(self, fn, b, t, st):
        """Run a generator's body ahead: its values as a fixed tuple, with the file
        positions at each of them.  None where the number of values is not fixed."""
        fi = fn.fi
        if len(self.callstack) >= self.max_depth:
            return None
        files = [k for k, o in st.heap.items() if getattr(o, 'kind', None) == 'inst' and o.cls == 'file']
        pos0 = Tup([Tup([Ref(k), st.heap[k].attrs['$pos']]) for k in files])
        w = st.copy()
        self.stats['functions'].add(fi.qual)
        fr = Frame(fi, fi.mod, fn.frame)
        fr.vars.update(b)
        fr.vars['$args'] = Tup([x for x in b.values() if isinstance(x, V)])
        fr.vars['$yields'] = Tup(())
        fr.vars['$snaps'] = Tup([pos0])
        fr.vars['$loops'] = K(len(w.loops))
        fr.localnames = local_names(fi.node)
        w.nid += 1
        fid = w.nid
        w.heap[fid] = fr
        w.stack = w.stack + (fid,)
        self.callstack.append(fi)
        saved = self.cur
        self.sinks.append([])
        try:
            outs = self.block(fi.node.body, [w])
        finally:
            self.callstack.pop()
            self.cur = saved
            sink = self.sinks.pop()
        outs += [('raise', s, e) for s, e in sink]
        res = []
        for kind, s, v in outs:
            f = s.heap.get(fid)
            if f is None or f.vars.get('$yields') is None:
                return None
            if kind == 'raise' and v.implicit and not self.may_raise:
                continue
            g = Inst('generator')
            g.attrs = {'gen': f.vars['$yields'], 'snaps': Tup(list(f.vars['$snaps'].items) + [self.positions(s)]),
                       'n': K(0), 'fn': fn, 'call': t}
            if kind == 'raise':
                g.attrs['end'] = K(v.name)
            for x in pos0.items:
                s.mut(x.items[0]).attrs['$pos'] = x.items[1]
            ref = s.alloc(g)
            self._pop_frame(s, fid)
            res.append((s, ref))
        return res

    def freeze_gen(self, v, st):
        return v

    def positions(self, st):
        return Tup([Tup([Ref(k), o.attrs['$pos']]) for k, o in st.heap.items()
                    if getattr(o, 'kind', None) == 'inst' and o.cls == 'file'])

    def gen_at(self, st, snap):
        for x in snap.items:
            st.mut(x.items[0]).attrs['$pos'] = x.items[1]

    def run_gen(self, fi, args, kwargs, st, frame=None):
        b = self.bind_args(fi, args, kwargs, st)
        if b is None:
            raise AnalysisError('cannot bind arguments of %s' % fi.qual)
        self.stats['functions'].add(fi.qual)
        fr = Frame(fi, fi.mod, frame)
        fr.vars.update(b)
        fr.localnames = local_names(fi.node)
        st.nid += 1
        fid = st.nid
        st.heap[fid] = fr
        st.stack = st.stack + (fid,)
        self.callstack.append(fi)
        try:
            outs = self.block(fi.node.body, [st])
        finally:
            self.callstack.pop()
        res = []
        for kind, s, v in outs:
            res.append(('raise' if kind == 'raise' else 'return', s, v if kind != 'next' else NONE))
        return res

    # ------------------------------------------------------------ statements
    def block(self, stmts, states):
        """-> list of (kind, state, value); kind next/return/raise/break/continue"""
        outs = []
        cur = states
        for s in stmts:
            nxt = []
            for st in cur:
                for kind, s2, v in self.stmt(s, st):
                    if kind == 'next':
                        nxt.append(s2)
                    else:
                        outs.append((kind, s2, v))
            cur = self.merge(nxt) if len(nxt) > 1 else nxt
            if not cur:
                break
        outs.extend(('next', s, None) for s in cur)
        return outs

    def stmt(self, node, st):
        self.tick()
        self.stats['statements'] += 1
        self.cur = node
        self.sinks.append([])
        depth = len(st.stack)
        try:
            m = getattr(self, 'st_' + type(node).__name__, None)
            if m is None:
                self.notes.append('statement %s not modelled at %s' % (type(node).__name__, self.site(node)))
                st.taint = st.taint + (self.site(node),)
                outs = [('next', st, None)]
            else:
                outs = list(m(node, st))
        finally:
            sink = self.sinks.pop()
        for s, e in sink:
            # unwind frames of calls the exception left
            while len(s.stack) > depth:
                f = s.stack[-1]
                s.stack = s.stack[:-1]
                if f in s.heap and not s.heap[f].captured:
                    del s.heap[f]
            outs.append(('raise', s, e))
        return outs

    def st_Expr(self, node, st):
        if isinstance(node.value, ast.Constant):
            return [('next', st, None)]
        return [('next', s, None) for s, v in self.ev(node.value, st)]

    def st_Pass(self, node, st):
        return [('next', st, None)]

    def st_Import(self, node, st):
        fr = st.mut(st.stack[-1])
        for a in node.names:
            n = a.name if a.asname else a.name.split('.')[0]
            fr.vars[a.asname or n] = Mod(n) if n in self.p.modules else Ext(n)
        return [('next', st, None)]

    def st_ImportFrom(self, node, st):
        fr = st.mut(st.stack[-1])
        base = self.p._from_base(fr.mod, node)
        for a in node.names:
            if a.name == '*':
                continue
            if base + '.' + a.name in self.p.modules:
                v = Mod(base + '.' + a.name)
            elif base in self.p.modules:
                v = self.global_value(base, a.name, st)
            else:
                v = Ext(base + '.' + a.name)
            fr.vars[a.asname or a.name] = v
        return [('next', st, None)]

    def st_Global(self, node, st):
        fr = st.mut(st.stack[-1])
        fr.globals = fr.globals | set(node.names)
        return [('next', st, None)]

    def st_Nonlocal(self, node, st):
        fr = st.mut(st.stack[-1])
        fr.nonlocals = fr.nonlocals | set(node.names)
        return [('next', st, None)]

    def st_FunctionDef(self, node, st):
        fid = st.stack[-1]
        fr = st.mut(fid)
        fr.captured = True
        fi = self._nested_fi(node, fr)
        fr.vars[node.name] = Fn(fi, fid)
        return [('next', st, None)]

    def _nested_fi(self, node, fr):
        k = id(node)
        c = self.constcache.get(('fi', k))
        if c is None:
            c = FuncInfo(node, fr.mod, (fr.fi.qual if fr.fi else fr.mod.name) + '.' +
                         getattr(node, 'name', '<lambda>'), None)
            self.constcache[('fi', k)] = c
        return c

    def st_ClassDef(self, node, st):
        fr = st.mut(st.stack[-1])
        fr.vars[node.name] = Unk('local class')
        return [('next', st, None)]

    def st_Return(self, node, st):
        if node.value is None:
            return [('return', st, NONE)]
        return [('return', s, v) for s, v in self.ev(node.value, st)]

    def st_Raise(self, node, st):
        if node.exc is None:
            e = st.ghost.get('$exc')
            return [('raise', st, e if e is not None else Exc('Exception', None, self.site(node)))]
        outs = []
        for s, v in self.ev(node.exc, st):
            outs.append(('raise', s, Exc(self.exc_name(v), v, self.site(node))))
        return outs

    def exc_name(self, v):
        if isinstance(v, T) and v.op == 'exc':
            return v.args[0]
        if isinstance(v, Cls):
            return v.ci.name
        if isinstance(v, Ext):
            return v.name.split('.')[-1]
        return 'Exception'

    def st_Assert(self, node, st):
        outs = []
        for s, v in self.ev(node.test, st):
            r = self.truth(v, s)
            if r is None:
                f = s.copy()
                if (self.may_raise or self.handled('AssertionError')) and self.assume(v, False, f):
                    outs.append(('raise', f, Exc('AssertionError', None, self.site(node), True)))
                if self.assume(v, True, s):
                    outs.append(('next', s, None))
            elif r:
                outs.append(('next', s, None))
            else:
                outs.append(('raise', s, Exc('AssertionError', None, self.site(node))))
        return outs

    def st_Delete(self, node, st):
        outs = [st]
        for t in node.targets:
            nxt = []
            for s in outs:
                if isinstance(t, ast.Name):
                    fr = s.mut(s.stack[-1])
                    fr.vars.pop(t.id, None)
                    nxt.append(s)
                elif isinstance(t, ast.Attribute):
                    for s2, o in self.ev(t.value, s):
                        nxt.extend(x for x, _ in self.M.del_attr(self, s2, o, t.attr))
                elif isinstance(t, ast.Subscript):
                    for s2, o in self.ev(t.value, s):
                        for s3, k in self.ev(t.slice, s2):
                            nxt.extend(x for x, _ in self.M.del_item(self, s3, o, k))
                else:
                    nxt.append(s)
            outs = nxt
        return [('next', s, None) for s in outs]

    def st_Assign(self, node, st):
        outs = []
        for s, v in self.ev(node.value, st):
            sts = [s]
            for t in node.targets:
                sts = [s3 for s2 in sts for s3 in self.assign(t, v, s2)]
            outs.extend(('next', x, None) for x in sts)
        return outs

    def st_AnnAssign(self, node, st):
        if node.value is None:
            return [('next', st, None)]
        outs = []
        for s, v in self.ev(node.value, st):
            outs.extend(('next', x, None) for x in self.assign(node.target, v, s))
        return outs

    def st_AugAssign(self, node, st):
        outs = []
        t = node.target
        op = type(node.op).__name__
        if isinstance(t, ast.Name):
            for s, old in self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), st):
                for s2, v in self.ev(node.value, s):
                    for s3, r in self.M.inplace(self, s2, op, old, v):
                        outs.extend(('next', x, None) for x in self.assign(t, r, s3))
        elif isinstance(t, ast.Attribute):
            for s, o in self.ev(t.value, st):
                for s1, old in self.getattr(o, t.attr, s):
                    for s2, v in self.ev(node.value, s1):
                        for s3, r in self.M.inplace(self, s2, op, old, v):
                            outs.extend(('next', x, None) for x in self.setattr(o, t.attr, r, s3))
        elif isinstance(t, ast.Subscript):
            for s, o in self.ev(t.value, st):
                for s1, k in self.ev(t.slice, s):
                    for s2, old in self.getitem(o, k, s1):
                        for s3, v in self.ev(node.value, s2):
                            for s4, r in self.M.inplace(self, s3, op, old, v):
                                outs.extend(('next', x, None) for x in self.setitem(o, k, r, s4))
        return outs

    def assign(self, t, v, st):
        """-> list of states"""
        if isinstance(t, ast.Name):
            self.setname(t.id, v, st)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.fixed_items(v, st)
            if items is None and isinstance(v, T) and v.op == 'divmod':
                items = [T('floordiv', *v.args), T('mod', *v.args)]
            if items is None and isinstance(v, K) and (v.v is None or isinstance(v.v, (int, float, bool))):
                self.raise_(st, 'TypeError')
                return []
            if items is None:
                sv = self.seqval(v, st)
                if stars:
                    i = stars[0]
                    items = [self.unpack_item(sv, K(j), st) for j in range(i)] + \
                        [T('middle', sv, K(i), K(n - i - 1))] + \
                        [self.unpack_item(sv, K(j - n), st) for j in range(i + 1, n)]
                    elts = [e.value if isinstance(e, ast.Starred) else e for e in t.elts]
                    sts = [st]
                    for e, x in zip(elts, items):
                        sts = [s2 for s in sts for s2 in self.assign(e, x, s)]
                    return sts
                items = [self.unpack_item(sv, K(i), st) for i in range(n)]
                self.emit('unpack', st, value=sv, n=n)
            elif stars:
                i = stars[0]
                k = len(items) - (n - 1)
                mid = st.alloc(ListObj('list', [('one', x) for x in items[i:i + k]]))
                items = items[:i] + [mid] + items[i + k:]
            if len(items) != n:
                self.raise_(st, 'ValueError')
                return []
            sts = [st]
            for e, x in zip(t.elts, items):
                e = e.value if isinstance(e, ast.Starred) else e
                sts = [s2 for s in sts for s2 in self.assign(e, x, s)]
            return sts
        if isinstance(t, ast.Attribute):
            return [s3 for s2, o in self.ev(t.value, st) for s3 in self.setattr(o, t.attr, v, s2)]
        if isinstance(t, ast.Subscript):
            return [s4 for s2, o in self.ev(t.value, st) for s3, k in self.ev(t.slice, s2)
                    for s4 in self.setitem(o, k, v, s3)]
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st)
        return [st]

    def unpack_item(self, v, i, st):
        if isinstance(v, T) and v.op == 'unpack':
            return T('field', v, i)
        return self.elem_at(v, i, st)

    def setname(self, name, v, st):
        fid = st.stack[-1]
        fr = st.heap[fid]
        if name in fr.nonlocals:
            p = fr.parent
            while p is not None:
                f = st.heap[p]
                if name in f.vars or name in (f.localnames or ()):
                    st.mut(p).vars[name] = v
                    return
                p = f.parent
        if name in fr.globals or fr.fi is None:
            self.emit('globalwrite', st, name=name)
            if fr.fi is not None:
                return
        st.mut(fid).vars[name] = v

    def st_If(self, node, st):
        outs = []
        tstates, fstates = [], []
        before = dict(st.facts)
        for s, b in self.cond(node.test, st):
            (tstates if b else fstates).append(s)
        conj = None
        if st.loops and len(fstates) > 1 and len(tstates) == 1 and isinstance(node.test, ast.BoolOp) and \
                isinstance(node.test.op, ast.And):
            new = [(a, w) for a, w in tstates[0].facts.items() if before.get(a) != w]
            if 1 < len(new) <= 3:
                conj = T('and', *[a if w else T('not', a) for a, w in new])
        tstates, fstates = self.merge(tstates), self.merge(fstates)
        if conj is not None and len(fstates) == 1 and not any(a in fstates[0].facts for a, _ in new):
            fstates[0].facts[conj] = False
        if tstates:
            outs += self.block(node.body, tstates)
        if fstates:
            outs += self.block(node.orelse, fstates) if node.orelse else [('next', s, None) for s in fstates]
        return outs

    def cond(self, node, st):
        """Evaluate a condition with short circuit.  -> list of (state, bool)"""
        if isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            live, out = [st], []
            for x in node.values:
                nxt = []
                for s in live:
                    for s2, b in self.cond(x, s):
                        if b == isand:
                            nxt.append(s2)
                        else:
                            out.append((s2, b))
                live = nxt
            return out + [(s, isand) for s in live]
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(s, not b) for s, b in self.cond(node.operand, st)]
        out = []
        for s, v in self.ev(node, st):
            out += self.branch(v, s)
        return out

    def st_With(self, node, st):
        return self._with(node, list(node.items), st)

    def _with(self, node, items, st):
        if not items:
            return self.block(node.body, [st])
        it = items[0]
        outs = []
        for s, mgr in self.ev(it.context_expr, st):
            for s2, ent in self.M.enter(self, s, mgr):
                sts = [s2]
                if it.optional_vars is not None:
                    sts = self.assign(it.optional_vars, ent, s2)
                for s3 in sts:
                    for kind, s4, v in self._with(node, items[1:], s3):
                        outs += self.M.leave(self, s4, mgr, kind, v)
        return outs

    def st_Try(self, node, st):
        hs = []
        for h in node.handlers:
            hs.append(self.handler_names(h, st))
        self.handlers.append(hs)
        try:
            outs = self.block(node.body, [st])
        finally:
            self.handlers.pop()
        res, normal = [], []
        caught = [[] for _ in node.handlers]
        for kind, s, v in outs:
            if kind == 'raise':
                for i, names in enumerate(hs):
                    if names is None or self.exc_matches(v.name, names) or \
                            (v.implicit and v.name == 'Exception'):
                        if v.implicit and v.name == 'Exception' and names is not None and \
                                not self.exc_matches('Exception', names):
                            # unknown exception: may or may not match this handler
                            caught[i].append((s.copy(), v))
                            continue
                        caught[i].append((s, v))
                        break
                else:
                    res.append((kind, s, v))
            elif kind == 'next':
                normal.append(s)
            else:
                res.append((kind, s, v))
        if node.orelse:
            if normal:
                res += self.block(node.orelse, self.merge(normal))
        else:
            res += [('next', s, None) for s in normal]
        for h, lst in zip(node.handlers, caught):
            for s, e in lst:
                prev = s.ghost.get('$exc')
                s.ghost['$exc'] = e
                if h.name:
                    s.mut(s.stack[-1]).vars[h.name] = e.val if isinstance(e.val, V) else T('exc', e.name, ())
                for kind, s2, v in self.block(h.body, [s]):
                    if kind != 'raise':
                        if prev is None:
                            s2.ghost.pop('$exc', None)
                        else:
                            s2.ghost['$exc'] = prev
                    res.append((kind, s2, v))
        if node.finalbody:
            final = []
            for kind, s, v in res:
                for k2, s2, v2 in self.block(node.finalbody, [s]):
                    if k2 == 'next':
                        final.append((kind, s2, v))
                    else:
                        final.append((k2, s2, v2))
            res = final
        return res

    def handler_names(self, h, st):
        if h.type is None:
            return None
        nodes = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for n in nodes:
            if isinstance(n, ast.Name):
                out.append(n.id)
            elif isinstance(n, ast.Attribute):
                out.append(n.attr)
            else:
                return None
        return out

    # ------------------------------------------------------------ loops
    def iterable(self, v, st):
        """An instance of a class of the program gives what its __iter__ gives."""
        if isinstance(v, Ref):
            o = st.get(v)
            if o.kind == 'inst' and isinstance(o.cls, ClassInfo) and getattr(o, 'd', None) is None:
                fi = self.p.find_method(o.cls, '__iter__')
                if fi is not None:
                    return self.call_fn(Fn(fi), [v], {}, st)
        return [(st, v)]

    def st_For(self, node, st):
        outs = []
        for s, itv in [y for s0, x in self.ev(node.iter, st) for y in self.iterable(x, s0)]:
            end = self.gen_end(itv, s)
            if end:
                o = s.get(itv)
                items = list(o.attrs['gen'].items[o.attrs['n'].v:])
                self.consume(itv, s)
                for kind, s2, v in self.unrolled(node, items, s, True):
                    if kind == 'end':
                        self.raise_(s2, end)
                    else:
                        outs.append((kind, s2, v))
                continue
            items = self.fixed_items(itv, s)
            if isinstance(itv, K) and isinstance(itv.v, str):
                items = None if len(itv.v) > max(8, self.unroll - 8) else items
            if items is not None and len(items) <= self.unroll:
                self.consume(itv, s)
                outs += self.unrolled(node, items, s)
                continue
            outs += self.loop(node, s, self.seqval(itv, s), itv)
        return outs

    def unrolled(self, node, items, st, ends=False):
        outs, cur = [], [st]
        broke = []
        for x in items:
            nxt = []
            for s in cur:
                for s2 in self.assign(node.target, x, s):
                    for kind, s3, v in self.block(node.body, [s2]):
                        if kind in ('next', 'continue'):
                            nxt.append(s3)
                        elif kind == 'break':
                            broke.append(s3)
                        else:
                            outs.append((kind, s3, v))
            cur = self.merge(nxt)
        for s in cur:
            if ends:
                outs.append(('end', s, None))
            elif node.orelse:
                outs += self.block(node.orelse, [s])
            else:
                outs.append(('next', s, None))
        outs += [('next', s, None) for s in broke]
        return outs

    def st_While(self, node, st):
        if self.eager_gens:
            r = self.unrolled_while(node, st.copy())
            if r is not None:
                return r
        return self.loop(node, st, None, None)

    def unrolled_while(self, node, st):
        """A loop whose condition is known in every round."""
        outs, cur = [], [st]
        n0 = len(self.sinks[-1])
        for rnd in range(24):
            nxt = []
            for s in cur:
                cs = self.cond(node.test, s)
                if len(cs) != 1:
                    del self.sinks[-1][n0:]
                    return None
                s, b = cs[0]
                if not b:
                    outs += self.block(node.orelse, [s]) if node.orelse else [('next', s, None)]
                    continue
                for kind, s2, v in self.block(node.body, [s]):
                    if kind in ('next', 'continue'):
                        nxt.append(s2)
                    elif kind == 'break':
                        outs.append(('next', s2, None))
                    else:
                        outs.append((kind, s2, v))
            cur = self.merge(nxt) if len(nxt) > 1 else nxt
            if not cur:
                return outs
            if len(cur) > 64:
                break
        del self.sinks[-1][n0:]
        return None

    def loop_id(self, node):
        fi = self.callstack[-1] if self.callstack else None
        return '%s:%d:%d' % (fi.mod.rel if fi else '?', node.lineno, node.col_offset)

    def loop(self, node, st, src, itv):
        self.stats['loops'] += 1
        lid = self.loop_id(node)
        it = It(lid)
        isfor = src is not None
        ln = self.length(src, st) if isfor else None
        # purge facts about an earlier run of this loop
        self.drop_it(st, it)
        if not st.loops:
            st.wcount += 1
        inst = (lid, st.wcount, len(st.loops))
        st.loops = st.loops + ((lid, st.wcount),)
        entry_nid = st.nid
        sums = self.loopsums.setdefault((id(node), lid, len(self.callstack)), {})
        sums.clear()
        heads = [(st, 0)]
        seen = set() if isfor else {self.signature(st)[0]}
        exits, outs, broke = [], [], []
        backfacts = None        # facts common to all completed iterations
        i = 0
        nheads = 0
        while i < len(heads):
            h, rnd = heads[i]
            i += 1
            nheads += 1
            first = self.cmp('==', it, K(0), h)
            if isfor:
                self.assume(first, rnd == 0, h)
                if rnd:
                    self.assume(self.cmp('>', it, K(0), h), True, h)
            if nheads > self.max_heads:
                raise Budget('loop at %s does not converge' % self.site(node))
            # ---- exit / condition
            if isfor:
                ex = h.copy()
                if rnd == 0:
                    ok = self.assume(self.cmp('==', ln, K(0), ex), True, ex) if not isinstance(ln, K) else ln.v == 0
                else:
                    ok = True
                    if not isinstance(ln, K):
                        ok = self.assume(self.cmp('==', ln, K(0), ex), False, ex)
                if ok:
                    exits.append((ex, rnd))
                b = h
                if not isinstance(ln, K):
                    if not self.assume(self.cmp('==', ln, K(0), b), False, b):
                        continue
                elif ln.v == 0:
                    continue
                if not self.assume(self.cmp('<', it, ln, b), True, b):
                    continue
                elem = self.elem_at(src, it, b)
                self.emit('iter_begin', b, loop=lid, src=src, elem=elem, it=it, node=node)
                bodies = []
                for b2 in self.split_iter(b, lid, src, elem, it, node):
                    bodies += self.assign(node.target, elem, b2)
            else:
                bodies = []
                self.cur = node
                for s, bv in self.cond(node.test, h):
                    if bv:
                        self.emit('iter_begin', s, loop=lid, src=None, elem=None, it=it, node=node)
                        bodies += self.split_iter(s, lid, None, None, it, node)
                    else:
                        exits.append((s, rnd))
            headsnap = h if not isfor else None
            base = h.copy()
            for b in bodies:
                pre = b.copy()
                for kind, s, v in self.block(node.body, [b]):
                    if kind in ('next', 'continue'):
                        self.emit('iter_end', s, loop=lid, src=src, it=it, node=node, head=pre, kind_=kind)
                        fs = {(a, w) for a, w in s.facts.items()
                              if any(x == it for x in walk(a)) and pre.facts.get(a) != w}
                        backfacts = fs if backfacts is None else backfacts & fs
                        s2 = self.backedge(s, pre, it, lid, sums, node, rnd)
                        sig = self.signature(s2)[0]
                        if sig not in seen:
                            seen.add(sig)
                            heads.append((s2, rnd + 1))
                    elif kind == 'break':
                        self.emit('loop_break', s, loop=lid, src=src, it=it, node=node, head=pre, length=ln)
                        broke.append(s)
                    else:
                        s.loops = s.loops[:-1]
                        outs.append((kind, s, v))
        # ---- exits
        done = []
        for ex, rnd in exits:
            ex.loops = ex.loops[:-1]
            self.finish_loopsums(ex, lid, sums, src)
            if rnd > 0 and backfacts and isfor:
                ex.foralls = ex.foralls | {(src, lid, a, w, ()) for a, w in backfacts}
            elif rnd == 0 and isfor and backfacts:
                ex.foralls = ex.foralls | {(src, lid, a, w, ()) for a, w in backfacts}
            self.emit('loop_exit', ex, loop=lid, src=src, node=node, zero=(rnd == 0), length=ln)
            if isfor:
                self.subst_state(ex, {it: ln})
            else:
                self.subst_state(ex, {it: T('count', lid, inst[1])})
            done.append(ex)
        for s in broke:
            s.loops = s.loops[:-1]
            self.finish_loopsums(s, lid, sums, src)
        done = self.merge(done)
        for s in done:
            if node.orelse:
                outs += self.block(node.orelse, [s])
            else:
                outs.append(('next', s, None))
        for s in self.merge(broke):
            self.subst_state(s, {it: T('brk', lid, inst[1])})
            outs.append(('next', s, None))
        return outs

    def split_iter(self, st, lid, src, elem, it, node):
        sts = [st]
        if self.loop_split is not None:
            for c in self.loop_split(st, dict(loop=lid, src=src, elem=elem, it=it, node=node)):
                sts = [s2 for s in sts for s2, _ in self.branch(c, s)]
        return sts

    def drop_it(self, st, it):
        for a in list(st.facts):
            if flags(a) & F_IT and any(x == it for x in walk(a)):
                del st.facts[a]
        st.foralls = frozenset(f for f in st.foralls
                               if f[1] != it.loop or not any(x == it for x in walk(f[0])))

    def backedge(self, s, pre, it, lid, sums, node, rnd):
        """Turn the state at the end of an iteration into a head state."""
        # 1. containers appended to in this iteration -> loop segments
        touched = set()
        guards = self.iter_guards(s, pre, it)
        for oid, o in list(s.heap.items()):
            if oid not in pre.heap:
                continue
            po = pre.heap[oid]
            if o is po:
                continue
            fld = 'segs' if isinstance(o, ListObj) else 'ents' if isinstance(o, DictObj) else None
            if fld is None:
                continue
            ps, ns = getattr(po, fld), getattr(o, fld)
            if ns == ps:
                continue
            tok = ('loop', lid)
            if ns[:len(ps)] == ps:
                new = self.freeze_deep(ns[len(ps):], s)
                base = ps if (ps and ps[-1] == tok) else ps + (tok,)
                sums.setdefault(oid, set()).add((guards, new, rnd == 0))
                touched.add(oid)
                setattr(s.mut(oid), fld, base)
            else:
                setattr(s.mut(oid), fld, (('unk', lid),))
        sums.setdefault('$paths', set()).add((guards, frozenset(touched), rnd == 0))
        # ghost hook before the shift
        self.emit('backedge', s, loop=lid, it=it, node=node, head=pre)
        # 2. induction variables and shift
        fid = s.stack[-1]
        for f in s.stack:
            fr, pf = s.heap[f], pre.heap.get(f)
            if pf is None or fr is pf:
                continue
            for n, v in list(fr.vars.items()):
                pv = pf.vars.get(n)
                if pv is None or pv == v:
                    continue
                nv = self.induct(pv, v, it, rnd, s)
                if nv is not None:
                    s.mut(f).vars[n] = nv
        for oid, o in list(s.heap.items()):
            if isinstance(o, Inst) and oid in pre.heap and o is not pre.heap[oid]:
                po = pre.heap[oid]
                for n, v in list(o.attrs.items()):
                    pv = po.attrs.get(n)
                    if pv is None or pv == v:
                        continue
                    nv = self.induct(pv, v, it, rnd, s)
                    if nv is not None:
                        s.mut(oid).attrs[n] = nv
        self.shift(s, it)
        # dead targets
        if isinstance(node, ast.For):
            fi = self.callstack[-1] if self.callstack else None
            live = names_loaded_outside(fi.node if fi else None, node)
            fr = s.mut(s.stack[-1])
            for n in target_names(node.target):
                if n not in live:
                    fr.vars.pop(n, None)
            for n in dead_body_names(node, live):
                fr.vars.pop(n, None)
        # facts about iterations that no live value mentions are dropped
        self.prune_facts(s, it)
        return s

    def prune_facts(self, s, it):
        prev = lin_add(it, K(1), -1)
        if not any(flags(a) & F_IT for a in s.facts):
            return
        live = set()
        for f in s.stack:
            for v in s.heap[f].vars.values():
                if flags(v) & F_IT:
                    live.update(x for x in walk(v))
        for g in s.ghost.values():
            if isinstance(g, V):
                live.update(walk(g))
        for oid, o in s.heap.items():
            if isinstance(o, Inst):
                for v in o.attrs.values():
                    if isinstance(v, V) and flags(v) & F_IT:
                        live.update(walk(v))
        for a in list(s.facts):
            if flags(a) & F_IT and any(x == prev or x == it for x in walk(a)):
                terms = [x for x in walk(a) if x != a and isinstance(x, T) and x.op != 'lin' and
                         any(y == prev or y == it for y in walk(x))]
                if not any(t in live for t in terms) and not (prev in live and not terms):
                    del s.facts[a]

    def iter_guards(self, s, pre, it):
        return frozenset((a, w) for a, w in s.facts.items()
                         if pre.facts.get(a) != w and a.op != 'raises'
                         and any(x == it for x in walk(a)))

    def induct(self, pv, v, it, rnd, st):
        """Value for the next head, in terms of `it` BEFORE the shift."""
        if not isinstance(v, V) or not isinstance(pv, V):
            return None
        num = lambda x: is_num(x) or (isinstance(x, T) and x.op in ('lin', 'mul', 'len', 'pos', 'count')) or \
            isinstance(x, It) or (isinstance(x, (Sym, T)) and self.typeof(x, st) in ('int', 'num'))
        if num(pv) and num(v) and not (isinstance(pv, K) and isinstance(pv.v, bool)):
            d = lin_add(v, pv, -1)
            if any(x == it or x in self.no_induct for x in walk(d)):
                return None
            if isinstance(d, K) and d.v == 0:
                return None
            step = d
            cur = mul(step, it)
            if any(x == it for x in walk(pv)):
                # pv is already inductive: v must be pv + step with the same step
                nxt = subst(pv, {it: lin_add(it, K(1))})
                nxt = renorm(nxt)
                if nxt == v:
                    return None     # shift brings it back to pv
                return Unk('acc')
            if rnd == 0:
                # pv + step*(it+1): after the shift pv + step*it
                return lin_add(pv, mul(step, lin_add(it, K(1))))
            return Unk('acc')
        return None

    def shift(self, s, it):
        m = {it: lin_add(it, K(1), -1)}
        fix = lambda v: self.age(renorm(subst(v, m)), it) if flags(v) & F_IT else v
        self.map_state(s, fix)
        for a in list(s.facts):
            w = s.facts[a]
            if flags(a) & F_IT and any(x == it for x in walk(a)):
                del s.facts[a]
                if a.op in ('raises',):
                    continue
                if a.op in ('lt0', 'le0') and it in lin_parts(a.args[0])[0]:
                    continue
                if a.op == 'eq' and any(it in lin_parts(x)[0] for x in a.args):
                    continue
                na = renorm(subst(a, m))
                if self.too_old(na, it):
                    continue
                if na.op in ('lt0', 'le0', 'eq', 'truthy', 'is', 'in', 'isinst'):
                    s.facts[na] = w

    def too_old(self, v, it):
        for x in walk(v):
            if isinstance(x, T) and x.op == 'lin':
                parts, c = lin_parts(x)
                if parts.get(it) == 1 and len(parts) == 1 and c <= -2:
                    return True
        return False

    def age(self, v, it):
        if not self.too_old(v, it):
            return v
        m = {}
        for x in walk(v):
            if isinstance(x, T) and x.op == 'lin':
                parts, c = lin_parts(x)
                if parts.get(it) == 1 and len(parts) == 1 and c <= -2:
                    m[x] = Old(it.loop)
        return subst(v, m)

    def map_state(self, s, fix):
        def mp(x):
            if isinstance(x, V):
                return fix(x)
            if isinstance(x, tuple):
                return tuple(mp(y) for y in x)
            return x
        for oid, o in list(s.heap.items()):
            if isinstance(o, Frame):
                nv = {k: fix(v) for k, v in o.vars.items()}
                if nv != o.vars:
                    s.mut(oid).vars = nv
            elif isinstance(o, Inst):
                nv = {k: mp(v) for k, v in o.attrs.items()}
                if nv != o.attrs:
                    s.mut(oid).attrs = nv
            elif isinstance(o, ListObj):
                ns = mp(o.segs)
                if ns != o.segs:
                    s.mut(oid).segs = ns
            elif isinstance(o, DictObj):
                ne = mp(o.ents)
                if ne != o.ents:
                    s.mut(oid).ents = ne
                if any(fix(k) != k for k in o.lazy):
                    s.mut(oid).lazy = {k: v for k, v in o.lazy.items() if fix(k) == k}
            elif isinstance(o, ArrObj):
                ne, nl = fix(o.elem), fix(o.length) if isinstance(o.length, V) else o.length
                if ne != o.elem or nl != o.length:
                    o = s.mut(oid)
                    o.elem, o.length = ne, nl
        for g, v in list(s.ghost.items()):
            s.ghost[g] = mp(v)

    def subst_state(self, s, m):
        fix = lambda v: renorm(subst(v, m)) if not iton or flags(v) & F_IT else v
        iton = all(isinstance(k, (It, Old)) for k in m)
        keys = set(m)
        self.map_state(s, fix)
        for a in list(s.facts):
            if any(x in keys for x in walk(a)):
                w = s.facts.pop(a)
                na = fix(a)
                if isinstance(na, T) and not any(x in keys for x in walk(na)) and na.op in (
                        'lt0', 'le0', 'eq', 'truthy', 'is', 'in', 'isinst'):
                    s.facts[na] = w

    def freeze_deep(self, x, st, seen=()):
        """Replace references to containers by immutable descriptions."""
        if isinstance(x, tuple):
            return tuple(self.freeze_deep(y, st, seen) for y in x)
        if not isinstance(x, V) or not flags(x) & F_REF:
            return x
        m = {}
        for y in walk(x):
            if isinstance(y, Ref) and y.id in st.heap and y.id not in seen:
                o = st.get(y)
                if isinstance(o, ArrObj):
                    m[y] = T('arrval', o.elem, o.length, o.ndim if isinstance(o.ndim, V) else K(o.ndim), K(o.dk))
                elif isinstance(o, ListObj):
                    m[y] = self.freeze_deep(self.listval(y, st), st, seen + (y.id,))
                elif isinstance(o, DictObj):
                    m[y] = self.freeze_deep(self.dictval(y, st), st, seen + (y.id,))
        return subst(x, m) if m else x

    def finish_loopsums(self, s, lid, sums, src):
        paths = sums.get('$paths', set())
        for oid, alts in sums.items():
            if oid not in s.heap or oid == '$paths':
                continue
            o = s.heap[oid]
            tok = ('loop', lid)
            alts = set(alts) | {(g, (), r) for g, t, r in paths if oid not in t}
            a0 = {(g, n) for g, n, r in alts if r}
            a1 = {(g, n) for g, n, r in alts if not r}
            if not a1 or a0 <= a1:
                alts = a0 | a1
            else:
                fa = T('eq', *self._order(It(lid), K(0)))
                alts = {(g | {(fa, True)}, n) for g, n in a0} | {(g | {(fa, False)}, n) for g, n in a1}
            if isinstance(o, ListObj) and tok in o.segs:
                s.mut(oid).segs = tuple(self.loopseg(lid, src, alts) if x == tok else x for x in o.segs)
            elif isinstance(o, DictObj) and tok in o.ents:
                seg = self.loopents(lid, src, alts)
                s.mut(oid).ents = tuple(seg if x == tok else x for x in o.ents)
                self.canon_dict(s, oid)

    def loopents(self, lid, src, alts):
        live = [(g, n) for g, n in alts if n]
        if src is not None and all(len(n) == 1 and n[0][0] == 'one' for g, n in live):
            pairs = {Tup([n[0][1], n[0][2]]) for g, n in live}
            if len(live) == len(alts):
                if len(pairs) == 1:
                    return ('comp', Comp([(src, lid)], [], pairs.pop()))
                keys = {p.items[0] for p in pairs}
                if len(keys) == 1:
                    cs = tuple(sorted(((tuple(sorted(g, key=repr)), n[0][2]) for g, n in live), key=repr))
                    return ('comp', Comp([(src, lid)], [], Tup([keys.pop(), T('cases', cs)])))
            elif len(live) == 1:
                g, n = live[0]
                gs = [a if w else T('not', a) for a, w in sorted(g, key=repr)]
                return ('comp', Comp([(src, lid)], gs, pairs.pop()))
        return ('loopents', lid, src, tuple(sorted(((tuple(sorted(g, key=repr)), n) for g, n in alts), key=repr)))

    def loopseg(self, lid, src, alts):
        """Summary of the appends of a loop.  One append on every path gives an
        elementwise sequence; otherwise a general segment."""
        if all(len(n) == 1 and n[0][0] == 'one' for g, n in alts) and src is not None:
            cases = sorted(((tuple(sorted(g, key=repr)), n[0][1]) for g, n in alts), key=repr)
            vals = {v for g, v in cases}
            elem = cases[0][1] if len(vals) == 1 else T('cases', tuple(cases))
            return ('seq', Comp([(src, lid)], [], elem))
        live = [(g, n) for g, n in alts if n]
        if src is not None and len(live) == 1 and len(live[0][1]) == 1 and live[0][1][0][0] == 'one':
            g, n = live[0]
            gs = [a if w else T('not', a) for a, w in sorted(g, key=repr)]
            return ('seq', Comp([(src, lid)], gs, n[0][1]))
        return ('loopseg', lid, src, tuple(sorted(((tuple(sorted(g, key=repr)), n) for g, n in alts), key=repr)))

    def st_Break(self, node, st):
        return [('break', st, None)]

    def st_Continue(self, node, st):
        return [('continue', st, None)]

    # ------------------------------------------------------------ expressions
    def ev(self, node, st):
        """-> list of (state, value); exceptions go to the current sink"""
        self.tick()
        m = getattr(self, 'ex_' + type(node).__name__, None)
        if m is None:
            self.notes.append('expression %s not modelled at %s' % (type(node).__name__, self.site(node)))
            return [(st, Unk(type(node).__name__))]
        return m(node, st)

    def evs(self, nodes, st):
        """Evaluate several -> list of (state, [values])"""
        res = [(st, [])]
        for n in nodes:
            res = [(s2, vs + [v]) for s, vs in res for s2, v in self.ev(n, s)]
        return res

    def ex_Constant(self, node, st):
        return [(st, K(node.value))]

    def ex_JoinedStr(self, node, st):
        res = self.evs([v.value for v in node.values if isinstance(v, ast.FormattedValue)], st)
        return [(s, T('fmt', tuple(vs))) for s, vs in res]

    def ex_Name(self, node, st):
        return self.lookup(node.id, st)

    def lookup(self, name, st):
        fid = st.stack[-1]
        fr = st.heap[fid]
        if name in fr.vars and name not in fr.globals:
            return [(st, fr.vars[name])]
        if fr.localnames is not None and name in fr.localnames and name not in fr.globals \
                and name not in fr.nonlocals:
            self.emit('unbound', st, name=name)
            self.raise_(st, 'UnboundLocalError')
            return []
        p = fr.parent
        while p is not None:
            f = st.heap.get(p)
            if f is None:
                break
            if name in f.vars:
                return [(st, f.vars[name])]
            p = f.parent
        return [(st, self.global_value(fr.mod.name, name, st))]

    def global_value(self, modname, name, st):
        r = self.p.resolve(modname, name)
        if r is None:
            if hasattr(_bi, name):
                return {'None': NONE, 'True': TRUE, 'False': FALSE}.get(name, Ext('builtins.' + name))
            return Unk('global ' + name)
        if r[0] == 'func':
            return Fn(r[1])
        if r[0] == 'class':
            return Cls(r[1])
        if r[0] == 'module':
            return Mod(r[1])
        if r[0] == 'ext':
            c = self.M.CONSTS.get(r[1])
            return c if c is not None else Ext(r[1])
        m, nodes = r[1], r[2]
        key = (m.name, name)
        if key in self.constcache:
            return self.constcache[key]
        self.constcache[key] = Unk('global %s.%s' % key)
        sl = init_slice(m.tree.body, name, self.p)
        if sl is not None:
            self.constcache[key] = self.init_value(sl, name, m, {})
            return self.constcache[key]
        if len(nodes) != 1 or nodes[0] is None:
            return self.constcache[key]
        v = self.static_const(nodes[0], m, st)
        self.constcache[key] = v
        return v

    def init_value(self, stmts, name, m, scope):
        """Value of a container that statements at module or class level fill."""
        tmp = State()
        tmp.nid = 10 ** 6
        fr = Frame(None, m, None)
        fr.vars.update(scope)
        tmp.nid += 1
        fid = tmp.nid
        tmp.heap[fid] = fr
        tmp.stack = (fid,)
        self.sinks.append([])
        saved, obs, self.observers = self.cur, self.observers, []
        eager, self.eager_gens, unroll, self.unroll = self.eager_gens, True, self.unroll, 64
        try:
            outs = self.block(stmts, [tmp])
        finally:
            self.sinks.pop()
            self.cur, self.observers, self.eager_gens, self.unroll = saved, obs, eager, unroll
        if len(outs) != 1 or outs[0][0] != 'next' or outs[0][1].taint:
            return Unk('initialisation of %s' % name)
        s = outs[0][1]
        v = s.heap[fid].vars.get(name)
        return self.freeze_static(v, s) if v is not None else Unk('initialisation of %s' % name)

    def class_attr(self, ci, name, st):
        node = ci.attrs[name]
        sl = init_slice(ci.node.body, name, self.p)
        key = (ci.qual, name)
        if key not in self.constcache:
            self.constcache[key] = Unk('class attribute')
            scope = {n: Fn(f) for n, f in ci.methods.items()}
            if sl is not None:
                v = self.init_value(sl, name, ci.mod, scope)
            elif isinstance(node, (ast.Dict, ast.List, ast.Tuple, ast.Name)) and any(
                    isinstance(x, ast.Name) and (x.id in scope or x.id in ci.attrs) for x in ast.walk(node)):
                for x in ast.walk(node):
                    if isinstance(x, ast.Name) and x.id in ci.attrs and x.id != name:
                        scope[x.id] = self.class_attr(ci, x.id, st)
                a = ast.copy_location(ast.Assign(targets=[ast.copy_location(ast.Name(name, ast.Store()), node)],
                                                 value=node), node)
                v = self.init_value([a], name, ci.mod, scope)
            else:
                v = self.static_const(node, ci.mod, st)
            self.constcache[key] = v
        return self.constcache[key]

    def freeze_static(self, v, tmp):
        if isinstance(v, Ref) and isinstance(tmp.get(v), DictObj):
            d = tmp.get(v)
            if d.base is not None or not all(e[0] == 'one' for e in d.ents):
                return Unk('global container')
            return T('dictval', None, tuple(('one', self.freeze_static(e[1], tmp), self.freeze_static(e[2], tmp))
                                            for e in d.ents))
        if isinstance(v, Ref) and isinstance(tmp.get(v), ListObj):
            it = self.fixed_items(v, tmp)
            return Tup([self.freeze_static(x, tmp) for x in it]) if it is not None else Unk('global container')
        if isinstance(v, Tup):
            return Tup([self.freeze_static(x, tmp) for x in v.items])
        if any(isinstance(x, Ref) for x in walk(v)):
            return Unk('global container')
        return v

    def static_const(self, node, m, st):
        """Module level value; containers become immutable descriptions."""
        if isinstance(node, (ast.Tuple, ast.List, ast.Set)):
            items = [self.static_const(e, m, st) for e in node.elts]
            return Tup(items)
        tmp = State()
        tmp.nid = 10 ** 6
        v = self.const_expr(node, m, tmp)
        if isinstance(v, Ref) or any(isinstance(x, Ref) for x in walk(v)):
            if isinstance(v, Ref) and isinstance(tmp.get(v), DictObj):
                d = tmp.get(v)
                if d.base is None and all(e[0] == 'one' for e in d.ents) and not any(
                        isinstance(x, Ref) for e in d.ents for y in e[1:] for x in walk(y)):
                    return T('dictval', None, d.ents)
            if isinstance(v, Ref) and isinstance(tmp.get(v), ListObj):
                it = self.fixed_items(v, tmp)
                if it is not None and not any(isinstance(x, Ref) for y in it for x in walk(y)):
                    return Tup(it)
            return Unk('global container')
        return v

    def ex_Attribute(self, node, st):
        out = []
        for s, o in self.ev(node.value, st):
            out += self.getattr(o, node.attr, s)
        return out

    def getattr(self, o, name, st):
        if isinstance(o, Mod):
            return [(st, self.global_value(o.name, name, st))]
        if isinstance(o, T) and o.op == 'structobj' and name == 'size':
            return self.models['struct.calcsize'](self, st, [o.args[0]], {})
        if isinstance(o, Ext):
            full = o.name + '.' + name
            if full in self.models or not full.startswith('builtins.'):
                c = self.M.CONSTS.get(full)
                return [(st, c if c is not None else Ext(full))]
            return [(st, Ext(full))]
        if isinstance(o, Fn) and name in ('__name__', '__qualname__') and getattr(o.fi.node, 'name', None):
            return [(st, K(o.fi.node.name))]
        if isinstance(o, Cls):
            for c in self.p.mro(o.ci):
                if isinstance(c, ClassInfo) and '$attr %s.%s' % (c.qual, name) in st.ghost:
                    return [(st, st.ghost['$attr %s.%s' % (c.qual, name)])]
            if name == '__name__':
                return [(st, K(o.ci.name))]
            fi = self.p.find_method(o.ci, name)
            if fi:
                return [(st, Bound(Fn(fi), o) if fi.classm else Fn(fi))]
            for c in self.p.mro(o.ci):
                if isinstance(c, ClassInfo) and name in c.attrs:
                    return [(st, self.class_attr(c, name, st))]
                if isinstance(c, str) and c.startswith('builtins.'):
                    if hasattr(getattr(_bi, c[9:], None), name):
                        return [(st, Ext(c + '.' + name))]
            return [(st, T('attr', o, name))]
        if isinstance(o, Ref):
            ob = st.get(o)
            if ob.kind == 'inst':
                return self.inst_getattr(o, ob, name, st)
            return self.M.obj_getattr(self, st, o, ob, name)
        if isinstance(o, T) and o.op == 'super':
            return self.super_getattr(o, name, st)
        return self.M.term_getattr(self, st, o, name)

    def inst_getattr(self, o, ob, name, st):
        if isinstance(ob.cls, ClassInfo):
            fi = self.p.find_method(ob.cls, name)
            if fi and fi.prop:
                return self.call_fn(Fn(fi), [o], {}, st)
        if name in ob.attrs:
            return [(st, ob.attrs[name])]
        if isinstance(ob.cls, ClassInfo):
            if name == '__dict__':
                return [(st, T('vars', o))]
            if name == '__class__':
                return [(st, Cls(ob.cls))]
            for c in self.p.mro(ob.cls):
                if isinstance(c, ClassInfo) and '$attr %s.%s' % (c.qual, name) in st.ghost:
                    v = st.ghost['$attr %s.%s' % (c.qual, name)]
                    return [(st, Bound(v, o) if isinstance(v, Fn) else v)]
            if fi:
                if fi.static:
                    return [(st, Fn(fi))]
                return [(st, Bound(Fn(fi), Cls(ob.cls) if fi.classm else o))]
            for c in self.p.mro(ob.cls):
                if isinstance(c, ClassInfo) and name in c.attrs:
                    v = self.class_attr(c, name, st)
                    return [(st, v)]
                if isinstance(c, str) and c.startswith('builtins.') and hasattr(getattr(_bi, c[9:], None), name):
                    return [(st, Bound(T('method', name), o))]
            g = self.p.find_method(ob.cls, '__getattr__')
            if g:
                return self.call_fn(Fn(g), [o, K(name)], {}, st)
            if ob.open:
                v = Sym('%s.%s' % (ob.label, name))
                st.mut(o).attrs[name] = v
                return [(st, v)]
            self.emit('missingattr', st, obj=o, name=name)
            self.raise_(st, 'AttributeError')
            return []
        return self.M.ext_inst_getattr(self, st, o, ob, name)

    def super_getattr(self, o, name, st):
        ci, selfv = o.args[0].ci, o.args[1]
        mro = self.p.mro(ci)
        # position after ci in the MRO of the instance's class
        if isinstance(selfv, Ref) and st.get(selfv).kind == 'inst' and isinstance(st.get(selfv).cls, ClassInfo):
            mro = self.p.mro(st.get(selfv).cls)
        idx = mro.index(ci) + 1 if ci in mro else 1
        for c in mro[idx:]:
            if isinstance(c, ClassInfo):
                if name in c.methods:
                    return [(st, Bound(Fn(c.methods[name]), selfv))]
            elif c.startswith('builtins.') and hasattr(getattr(_bi, c[9:], None), name):
                return [(st, Bound(T('method', c[9:] + '.' + name), selfv))]
        if hasattr(object, name):
            return [(st, Bound(T('method', 'object.' + name), selfv))]
        return [(st, Unk('super ' + name))]

    def setattr(self, o, name, v, st):
        """Attribute assignment with interposition.  -> list of states"""
        if isinstance(o, Ref):
            ob = st.get(o)
            if ob.kind == 'inst' and isinstance(ob.cls, ClassInfo):
                fi = self.p.find_method(ob.cls, '__setattr__')
                if fi:
                    return [s for s, _ in self.call_fn(Fn(fi), [o, K(name), v], {}, st)]
                return self.raw_setattr(o, name, v, st)
            if ob.kind == 'inst':
                return self.raw_setattr(o, name, v, st)
            if ob.kind == 'array':
                self.emit('arrwrite', st, arr=o, how='attr ' + name)
                return [st]
        if isinstance(o, Cls):
            st.ghost['$attr %s.%s' % (o.ci.qual, name)] = v
        self.emit('setattr', st, obj=o, name=name, value=v)
        return [st]

    def raw_setattr(self, o, name, v, st):
        ob = st.get(o)
        old = ob.attrs.get(name)
        if isinstance(ob.cls, ClassInfo):
            for c in self.p.mro(ob.cls):
                if isinstance(c, ClassInfo) and name in c.setters:
                    return [s for s, _ in self.call_fn(Fn(c.setters[name]), [o, v], {}, st)]
        st.mut(o).attrs[name] = v
        self.emit('setattr', st, obj=o, name=name, value=v, old=old)
        return [st]

    def ex_Subscript(self, node, st):
        out = []
        for s, o in self.ev(node.value, st):
            for s2, k in self.ev(node.slice, s):
                out += self.getitem(o, k, s2)
        return out

    def ex_Slice(self, node, st):
        parts = [node.lower, node.upper, node.step]
        res = [(st, [])]
        for p in parts:
            if p is None:
                res = [(s, vs + [NONE]) for s, vs in res]
            else:
                res = [(s2, vs + [v]) for s, vs in res for s2, v in self.ev(p, s)]
        return [(s, T('slice', *vs)) for s, vs in res]

    def ex_Tuple(self, node, st):
        if any(isinstance(e, ast.Starred) for e in node.elts):
            return self._star_display(node, st, 'tuple')
        return [(s, Tup(vs)) for s, vs in self.evs(node.elts, st)]

    def ex_List(self, node, st):
        if any(isinstance(e, ast.Starred) for e in node.elts):
            return self._star_display(node, st, 'list')
        return [(s, s.alloc(ListObj('list', [('one', v) for v in vs]))) for s, vs in self.evs(node.elts, st)]

    def ex_Set(self, node, st):
        return [(s, s.alloc(ListObj('set', [('one', v) for v in vs]))) for s, vs in self.evs(node.elts, st)]

    def _star_display(self, node, st, kind):
        res = self.evs([e.value if isinstance(e, ast.Starred) else e for e in node.elts], st)
        out = []
        for s, vs in res:
            segs = []
            for e, v in zip(node.elts, vs):
                if isinstance(e, ast.Starred):
                    it = self.fixed_items(v, s)
                    if it is not None:
                        segs += [('one', x) for x in it]
                    else:
                        segs.append(('seq', self.seqval(v, s)))
                else:
                    segs.append(('one', v))
            if kind == 'tuple' and all(x[0] == 'one' for x in segs):
                out.append((s, Tup([x[1] for x in segs])))
            else:
                out.append((s, s.alloc(ListObj(kind, segs))))
        return out

    def ex_Dict(self, node, st):
        res = [(st, ())]
        for k, v in zip(node.keys, node.values):
            nxt = []
            for s, ents in res:
                if k is None:
                    for s2, d in self.ev(v, s):
                        nxt.append((s2, ents + (('many', self.dictval(d, s2) if isinstance(d, Ref) else d),)))
                else:
                    for s2, kv in self.ev(k, s):
                        for s3, vv in self.ev(v, s2):
                            nxt.append((s3, ents + (('one', kv, vv),)))
            res = nxt
        out = []
        for s, ents in res:
            d = DictObj()
            d.ents = ents
            out.append((s, s.alloc(d)))
        return out

    def ex_Starred(self, node, st):
        return self.ev(node.value, st)

    def ex_UnaryOp(self, node, st):
        if isinstance(node.op, ast.Not):
            out = []
            for s, v in self.ev(node.operand, st):
                t = self.truth(v, s)
                out.append((s, K(not t) if t is not None else self.neg(self.truthval(v, s))))
            return out
        out = []
        for s, v in self.ev(node.operand, st):
            out += self.M.unary(self, s, type(node.op).__name__, v)
        return out

    def ex_BoolOp(self, node, st):
        isand = isinstance(node.op, ast.And)
        live, out = [st], []
        for i, x in enumerate(node.values):
            nxt = []
            last = i == len(node.values) - 1
            for s in live:
                for s2, v in self.ev(x, s):
                    if last:
                        out.append((s2, v))
                        continue
                    for s3, b in self.branch(v, s2):
                        if b == isand:
                            nxt.append(s3)
                        else:
                            out.append((s3, self.narrow(v, b, s3)))
            live = nxt
        return out

    def narrow(self, v, b, st):
        """v is known truthy/falsy: boolean typed values become constants."""
        if self.typeof(v, st) == 'bool':
            return K(b)
        return v

    def ex_IfExp(self, node, st):
        out = []
        for s, b in self.cond(node.test, st):
            out += self.ev(node.body if b else node.orelse, s)
        return out

    def ex_Compare(self, node, st):
        ops = {'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'Is': 'is',
               'IsNot': 'is not', 'In': 'in', 'NotIn': 'not in'}
        out = []
        live = [(s, v) for s, v in self.ev(node.left, st)]
        for i, (op, rn) in enumerate(zip(node.ops, node.comparators)):
            nxt = []
            last = i == len(node.ops) - 1
            for s, lv in live:
                for s2, rv in self.ev(rn, s):
                    if isinstance(op, (ast.In, ast.NotIn)) and isinstance(rv, K) and \
                            not isinstance(rv.v, (str, bytes, tuple, frozenset)):
                        self.raise_(s2, 'TypeError')
                        continue
                    for s3, c in self.M.compare(self, s2, ops[type(op).__name__], lv, rv):
                        t = self.truth(c, s3) if not isinstance(c, Ref) else None
                        c = K(t) if t is not None else c
                        if last:
                            out.append((s3, c))
                        else:
                            for s4, b in self.branch(c, s3):
                                if b:
                                    nxt.append((s4, rv))
                                else:
                                    out.append((s4, FALSE))
            live = nxt
        return out

    def ex_BinOp(self, node, st):
        out = []
        for s, a in self.ev(node.left, st):
            for s2, b in self.ev(node.right, s):
                out += self.M.binop(self, s2, type(node.op).__name__, a, b)
        return out

    def ex_Lambda(self, node, st):
        fid = st.stack[-1]
        fr = st.mut(fid)
        if fr.fi is None and fr.parent is None and not fr.vars:
            return [(st, Fn(self._nested_fi(node, fr), None))]      # at module level
        fr.captured = True
        return [(st, Fn(self._nested_fi(node, fr), fid))]

    def ex_NamedExpr(self, node, st):
        out = []
        for s, v in self.ev(node.value, st):
            for s2 in self.assign(node.target, v, s):
                out.append((s2, v))
        return out

    def ex_Yield(self, node, st):
        res = self.ev(node.value, st) if node.value is not None else [(st, NONE)]
        out = []
        for s, v in res:
            self.emit('yield', s, value=v, node=node)
            if s.stack and s.heap[s.stack[-1]].vars.get('$yields') is not None:
                fr = s.mut(s.stack[-1])
                if fr.vars['$loops'] != K(len(s.loops)):
                    fr.vars['$yields'] = None       # in a loop of unknown length
                else:
                    fr.vars['$yields'] = Tup(list(fr.vars['$yields'].items) + [self.freeze_gen(v, s)])
                    fr.vars['$snaps'] = Tup(list(fr.vars['$snaps'].items) + [self.positions(s)])
            if self.may_raise:
                r = s.copy()
                self.raise_(r, 'GeneratorExit', implicit=True)
            out.append((s, NONE))
        return out

    def ex_YieldFrom(self, node, st):
        out = []
        for s, v in self.ev(node.value, st):
            if isinstance(v, Ref) and s.get(v).kind == 'inst' and s.get(v).cls == 'generator' \
                    and s.get(v).attrs['n'] == K(0):
                v = s.get(v).attrs['gen']
            if isinstance(v, T) and v.op == 'gen':
                fi = next((f for f in self.p.functions if f.qual == v.args[0]), None) or \
                    next((f for k, f in self.constcache.items() if k[0] == 'fi' and f.qual == v.args[0]), None)
                if fi is not None and len(self.callstack) < self.max_depth:
                    outs = self.run_gen(fi, [], dict(v.args[1]), s)
                    for kind, s2, val in outs:
                        if kind == 'raise':
                            self.sinks[-1].append((s2, val))
                        else:
                            s2.stack = st.stack
                            out.append((s2, val))
                    continue
            self.emit('yieldfrom', s, value=v, node=node)
            out.append((s, Unk('yieldfrom')))
        return out

    def ex_Await(self, node, st):
        return [(st, Unk('await'))]

    def ex_Call(self, node, st):
        self.cur = node
        # super()
        if isinstance(node.func, ast.Name) and node.func.id == 'super':
            return self._super(node, st)
        out = []
        for s, f in self.ev(node.func, st):
            for s2, args, kwargs in self.call_args(node, s):
                self.cur = node
                out += self.call(f, args, kwargs, s2, node)
        return out

    def _super(self, node, st):
        fr = st.frame()
        if node.args:
            res = self.evs(node.args, st)
            return [(s, T('super', vs[0], vs[1]) if len(vs) == 2 and isinstance(vs[0], Cls) else Unk('super'))
                    for s, vs in res]
        fi = fr.fi
        if fi and fi.cls:
            first = fi.node.args.args[0].arg
            return [(st, T('super', Cls(fi.cls), fr.vars[first]))]
        return [(st, Unk('super'))]

    def call_args(self, node, st):
        res = [(st, [], {})]
        for a in node.args:
            nxt = []
            for s, args, kw in res:
                if isinstance(a, ast.Starred):
                    for s2, v in self.ev(a.value, s):
                        if self.gen_end(v, s2):
                            self.raise_(s2, self.gen_end(v, s2))
                            continue
                        it = self.fixed_items(v, s2)
                        k2 = dict(kw)
                        if it is not None:
                            self.consume(v, s2)
                            nxt.append((s2, args + it, k2))
                        else:
                            k2['*'] = self.seqval(v, s2)
                            nxt.append((s2, list(args), k2))
                else:
                    for s2, v in self.ev(a, s):
                        nxt.append((s2, args + [v], dict(kw)))
            res = nxt
        for k in node.keywords:
            nxt = []
            for s, args, kw in res:
                for s2, v in self.ev(k.value, s):
                    k2 = dict(kw)
                    if k.arg is None:
                        o = s2.get(v) if isinstance(v, Ref) else None
                        if isinstance(o, DictObj) and o.base is None and all(
                                e[0] == 'one' and isinstance(e[1], K) for e in o.ents):
                            for e in o.ents:
                                k2[e[1].v] = e[2]
                        elif isinstance(o, DictObj):
                            k2['**'] = self.dictval(v, s2)
                        else:
                            k2['**'] = v
                    else:
                        k2[k.arg] = v
                    nxt.append((s2, list(args), k2))
            res = nxt
        return res

    # ---- comprehensions
    def ex_ListComp(self, node, st):
        return self.comp(node, st, 'list')

    def ex_SetComp(self, node, st):
        return self.comp(node, st, 'set')

    def ex_GeneratorExp(self, node, st):
        return self.comp(node, st, 'gen')

    def ex_DictComp(self, node, st):
        return self.comp(node, st, 'dict')

    def comp(self, node, st, kind):
        out = []
        g0 = node.generators[0]
        for s, itv in [y for s0, x in self.ev(g0.iter, st) for y in self.iterable(x, s0)]:
            out += self.comp_from(node, s, kind, itv)
        return out

    def comp_from(self, node, st, kind, itv):
        # own scope
        par = st.stack[-1]
        pf = st.mut(par)
        waspt = pf.captured
        pf.captured = True
        fr = Frame(pf.fi, pf.mod, par)
        st.nid += 1
        fid = st.nid
        st.heap[fid] = fr
        st.stack = st.stack + (fid,)
        if self.gen_end(itv, st) and kind != 'gen':
            self._comp_pop(st, fid, par, waspt)
            self.raise_(st, self.gen_end(itv, st))
            return []
        items = self.fixed_items(itv, st)
        if items is not None and len(items) <= 16 and len(node.generators) == 1:
            self.consume(itv, st)
            res = [(st, [])]
            g = node.generators[0]
            for x in items:
                nxt = []
                for s, acc in res:
                    for s2 in self.assign(g.target, x, s):
                        live = [(s2, True)]
                        for c in g.ifs:
                            l2 = []
                            for s3, ok in live:
                                if not ok:
                                    l2.append((s3, False))
                                    continue
                                l2 += self.cond(c, s3)
                            live = l2
                        for s3, ok in live:
                            if not ok:
                                nxt.append((s3, acc))
                                continue
                            if kind == 'dict':
                                for s4, vs in self.evs([node.key, node.value], s3):
                                    nxt.append((s4, acc + [tuple(vs)]))
                            else:
                                for s4, v in self.ev(node.elt, s3):
                                    nxt.append((s4, acc + [v]))
                res = nxt
            out = []
            for s, acc in res:
                self._comp_pop(s, fid, par, waspt)
                if kind == 'dict':
                    d = DictObj()
                    d.ents = tuple(('one', k, v) for k, v in acc)
                    out.append((s, s.alloc(d)))
                elif kind == 'gen':
                    out.append((s, Tup(acc)))
                else:
                    out.append((s, s.alloc(ListObj(kind, [('one', v) for v in acc]))))
            return out
        # symbolic source(s)
        src, guards = [], []
        base = st.copy()
        lids = []
        cur = st
        for gi, g in enumerate(node.generators):
            if gi == 0:
                sv = self.seqval(itv, cur)
            else:
                r = self.ev(g.iter, cur)
                if len(r) != 1:
                    self._comp_pop(cur, fid, par, waspt)
                    return [(cur, Unk('comp'))]
                cur, v = r[0]
                sv = self.seqval(v, cur)
            lid = 'c:' + self.loop_id(g.target) if not isinstance(g.target, ast.Name) else \
                'c:' + self.loop_id(g.target)
            lids.append(lid)
            self.drop_it(cur, It(lid))
            el = self.elem_at(sv, It(lid), cur)
            sts = self.assign(g.target, el, cur)
            if len(sts) != 1:
                self._comp_pop(cur, fid, par, waspt)
                return [(cur, Unk('comp'))]
            cur = sts[0]
            src.append((sv, lid))
            self.assume(self.cmp('<', It(lid), self.length(sv, cur), cur), True, cur)
            for c in g.ifs:
                r = self.ev(c, cur)
                gv = self.cases(r, cur.facts)
                cur = r[0][0] if r else cur
                if len(r) > 1:
                    cur = self.join_all([x for x, _ in r])
                guards.append(gv)
                self.assume(gv, True, cur) if not (isinstance(gv, T) and gv.op == 'cases') else None
        pre = dict(cur.facts)
        nodes = [node.key, node.value] if kind == 'dict' else [node.elt]
        r = self.evs(nodes, cur)
        if not r:
            # every element evaluation raises
            return []
        elem = self.cases([(s, Tup(vs) if kind == 'dict' else vs[0]) for s, vs in r], pre)
        s = self.join_all([x for x, _ in r]) if len(r) > 1 else r[0][0]
        if any(isinstance(x, Ref) for x in walk(elem)):
            elem = self.freeze(elem, s)
        for lid in lids:
            self.drop_it(s, It(lid))
        self._comp_pop(s, fid, par, waspt)
        if any(isinstance(x, Unk) for x in walk(elem)) and False:
            return [(s, Unk('comp'))]
        c = Comp(src, guards, elem)
        self.emit('comp', s, comp=c, kind_=kind, node=node)
        if kind == 'gen':
            return [(s, c)]
        if kind == 'dict':
            d = DictObj()
            d.ents = (('comp', c),)
            ref = s.alloc(d)
            self.canon_dict(s, ref)
            return [(s, ref)]
        return [(s, s.alloc(ListObj(kind, [('seq', c)])))]

    def freeze(self, v, st):
        """Replace references to fresh containers by immutable descriptions."""
        m = {}
        for x in walk(v):
            if isinstance(x, Ref):
                o = st.get(x)
                if isinstance(o, ListObj):
                    m[x] = self.listval(x, st)
        return subst(v, m) if m else v

    def _comp_pop(self, s, fid, par, waspt):
        s.stack = tuple(x for x in s.stack if x != fid)
        if fid in s.heap and not s.heap[fid].captured:
            del s.heap[fid]
        if par in s.heap and not waspt:
            s.mut(par).captured = False

    def cases(self, results, pre):
        """Join several (state, value) into one value."""
        if not results:
            return Unk('none')
        vals = {v for _, v in results}
        if len(vals) == 1:
            return results[0][1]
        alts = []
        for s, v in results:
            g = tuple(sorted(((a, w) for a, w in s.facts.items() if pre.get(a) != w), key=repr))
            alts.append((g, v))
        if len(alts) == 2 and len(alts[0][0]) == 1 and len(alts[1][0]) == 1 and \
                alts[0][0][0][0] == alts[1][0][0][0]:
            (a, w), v0 = alts[0][0][0], alts[0][1]
            v1 = alts[1][1]
            if {v0, v1} == {TRUE, FALSE}:
                return a if (v0 == TRUE) == w else T('not', a)
        return T('cases', tuple(sorted(alts, key=repr)))

    def join_all(self, sts):
        s = sts[0]
        for o in sts[1:]:
            for a in list(s.facts):
                if o.facts.get(a) != s.facts[a]:
                    del s.facts[a]
            s.foralls = s.foralls & o.foralls
            s.taint = s.taint or o.taint
            s.nid = max(s.nid, o.nid)
            for i, ob in o.heap.items():
                if i not in s.heap:
                    s.heap[i] = ob
        return s

    # ---- items
    def getitem(self, o, k, st):
        return self.M.getitem(self, st, o, k)

    def setitem(self, o, k, v, st):
        return [s for s, _ in self.M.setitem(self, st, o, k, v)]


# -------------------------------------------------------------------- helpers
def dict_root(d):
    """The dict whose keys a mapped dict has."""
    while isinstance(d, T) and d.op == 'dictmap':
        d = d.args[0]
    return d


def map_factory(E, st, base, k):
    v = subst(base.args[1], {Sym('$k'): k})
    if isinstance(v, T) and v.op == 'arrval':
        nd = v.args[2]
        return st.alloc(ArrObj(v.args[0], v.args[1], v.args[3].v, show_short(v.args[0]), None,
                               nd.v if isinstance(nd, K) else nd))
    return v


def show_short(v):
    s = repr(v)
    return s if len(s) < 60 else s[:60]


def mul(a, b):
    if is_num(a):
        return lin_scale(b, a.v)
    if is_num(b):
        return lin_scale(a, b.v)
    da, ca = lin_parts(a)
    db, cb = lin_parts(b)
    r = K(ca * cb)
    for t, k in da.items():
        for u, j in db.items():
            x, y = (t, u) if repr(t) <= repr(u) else (u, t)
            r = lin_add(r, lin_scale(T('mul', x, y), k * j))
        r = lin_add(r, lin_scale(t, k * cb))
    for u, j in db.items():
        r = lin_add(r, lin_scale(u, j * ca))
    return r


def renorm(v):
    """Re-normalise products after a substitution."""
    if isinstance(v, T) and v.op == 'mul':
        return mul(renorm(v.args[0]), renorm(v.args[1]))
    if isinstance(v, T) and v.op == 'lin':
        r = K(v.args[1])
        for t, k in v.args[0]:
            r = lin_add(r, lin_scale(renorm(t), k))
        return r
    if isinstance(v, T) and any(isinstance(x, T) and x.op == 'mul' for x in walk(v)):
        return T(v.op, *[renorm(a) if isinstance(a, V) else a for a in v.args])
    return v


def subst_at(e, i):
    """Array element expression e at index i: at(x) -> item(x, i)."""
    if isinstance(e, T):
        if e.op == 'at':
            return T('item', e, i)
        if e.op in ('and', 'or', 'not', 'ite', 'eq', 'lt0', 'le0'):
            return T(e.op, *[subst_at(a, i) if isinstance(a, V) else a for a in e.args])
    return e


def match_index(pat, it, term, src=None):
    """If term equals pat with `it` replaced by some index value, return it."""
    found = []

    def go(p, t):
        if p == it:
            if found and found[0] != t:
                return False
            if not found:
                found.append(t)
            return True
        if p == t:
            return True
        if isinstance(p, T) and isinstance(t, T) and p.op == t.op and p.op != 'lin' and len(p.args) == len(t.args):
            return all(go(a, b) if isinstance(a, V) and isinstance(b, V) else a == b
                       for a, b in zip(p.args, t.args))
        if isinstance(p, Tup) and isinstance(t, Tup) and len(p.items) == len(t.items):
            return all(go(a, b) for a, b in zip(p.items, t.items))
        return False
    if go(pat, term) and found:
        return found[0]
    # the element itself is the pattern variable: item(src, it) or key(src, it)
    return None


_ln_cache = {}


def local_names(node):
    r = _ln_cache.get(id(node))
    if r is not None:
        return r[1]
    names = set()
    if isinstance(node, ast.Lambda):
        _ln_cache[id(node)] = (node, names)
        return names
    glob = set()
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            names.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # walrus would leak; comprehension targets do not
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr) and isinstance(x.target, ast.Name):
                    names.add(x.target.id)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split('.')[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        stack.extend(ast.iter_child_nodes(n))
    names -= glob
    _ln_cache[id(node)] = (node, names)
    return names


def target_names(t):
    return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]


def names_loaded_outside(fnode, loop):
    """Names loaded in the function outside the loop body."""
    inside = set(id(x) for b in loop.body for x in ast.walk(b))
    out = set()
    if fnode is None:
        return out
    for n in ast.walk(fnode):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in inside:
            out.add(n.id)
    # nested functions may read anything
    for n in ast.walk(fnode):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fnode:
            for x in ast.walk(n):
                if isinstance(x, ast.Name):
                    out.add(x.id)
    return out


def dead_body_names(loop, live):
    """Names assigned by a plain top-level statement of the body before any use,
    and not used outside the loop."""
    out, used = [], set()
    for s in loop.body:
        if isinstance(s, ast.Assign):
            for n in ast.walk(s.value):
                if isinstance(n, ast.Name):
                    used.add(n.id)
            for t in s.targets:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name):
                        if isinstance(n.ctx, ast.Store):
                            if n.id not in used and n.id not in live:
                                out.append(n.id)
                        else:
                            used.add(n.id)
        for n in ast.walk(s):
            if isinstance(n, ast.Name):
                used.add(n.id)
    return out
