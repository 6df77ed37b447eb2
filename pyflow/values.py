"""Abstract values of the interpreter.

All values are immutable and hashable.  Mutable Python objects live in the
abstract heap (see interp.State) and are referred to by Ref.
"""


class V(object):
    __slots__ = ('_h', '_f')

    def key(self):
        raise NotImplementedError

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            self._h = hash((type(self).__name__, self.key()))
            return self._h

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and hash(self) == hash(o)
                             and self.key() == o.key())

    def __ne__(self, o):
        return not self == o


class K(V):
    """A Python constant."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def key(self):
        return (type(self.v).__name__, repr(self.v))

    def __repr__(self):
        return repr(self.v)


class Sym(V):
    """An opaque input, typed when the scenario says so."""
    __slots__ = ('name', 'typ')

    def __init__(self, name, typ='any'):
        self.name, self.typ = name, typ

    def key(self):
        return (self.name, self.typ)

    def __repr__(self):
        return self.name


class It(V):
    """The iteration number of the loop at an AST node (0-based)."""
    __slots__ = ('loop',)

    def __init__(self, loop):
        self.loop = loop

    def key(self):
        return self.loop

    def __repr__(self):
        return 'it<%s>' % (self.loop,)


class Old(V):
    """The number of some earlier iteration of a loop."""
    __slots__ = ('loop',)

    def __init__(self, loop):
        self.loop = loop

    def key(self):
        return self.loop

    def __repr__(self):
        return 'earlier<%s>' % (self.loop,)


class T(V):
    """A term: an operation applied to values."""
    __slots__ = ('op', 'args')

    def __init__(self, op, *args):
        self.op, self.args = op, args

    def key(self):
        return (self.op, self.args)

    def __repr__(self):
        if self.op == 'lin':
            terms, c = self.args
            return '(' + ' + '.join([('%s' % (t,) if k == 1 else '%s*%s' % (k, t))
                                     for t, k in terms] + ([repr(c)] if c or not terms else [])) + ')'
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.args)))


class Tup(V):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def key(self):
        return self.items

    def __repr__(self):
        return '(' + ', '.join(map(repr, self.items)) + ',)'


class Ref(V):
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def key(self):
        return self.id

    def __repr__(self):
        return '#%s' % (self.id,)


class Fn(V):
    """A function of the analysed program, with its defining frame."""
    __slots__ = ('fi', 'frame')

    def __init__(self, fi, frame=None):
        self.fi, self.frame = fi, frame

    def key(self):
        return (id(self.fi.node), self.frame)

    def __repr__(self):
        return '<fn %s>' % self.fi.qual


class Cls(V):
    __slots__ = ('ci',)

    def __init__(self, ci):
        self.ci = ci

    def key(self):
        return self.ci.qual

    def __repr__(self):
        return '<class %s>' % self.ci.qual


class Bound(V):
    __slots__ = ('fn', 'self')

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_

    def key(self):
        return (self.fn, self.self)

    def __repr__(self):
        return '<bound %r of %r>' % (self.fn, self.self)


class Ext(V):
    """Something outside the analysed program, by dotted name."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def key(self):
        return self.name

    def __repr__(self):
        return '<%s>' % self.name


class Mod(V):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def key(self):
        return self.name

    def __repr__(self):
        return '<module %s>' % self.name


class Unk(V):
    """Unknown value.  deps: what it was computed from."""
    __slots__ = ('deps', 'why')

    def __init__(self, why='', deps=()):
        self.why, self.deps = why, frozenset(deps)

    def key(self):
        return (self.why, self.deps)

    def __repr__(self):
        return '?%s' % (self.why,)


class Comp(V):
    """A sequence described elementwise.

    src: tuple of generators [(source value, It loop id)], guards: tuple of
    condition values, elem: the element value.  kind: list/gen/set.
    """
    __slots__ = ('src', 'guards', 'elem')

    def __init__(self, src, guards, elem):
        self.src, self.guards, self.elem = tuple(src), tuple(guards), elem

    def key(self):
        return (self.src, self.guards, self.elem)

    def __repr__(self):
        return '[%r for %s%s]' % (self.elem, ', '.join('%r in %r' % (It(b), a) for a, b in self.src),
                                  ''.join(' if %r' % (g,) for g in self.guards))


NONE, TRUE, FALSE = K(None), K(True), K(False)


def children(v):
    if isinstance(v, T):
        if v.op == 'lin':
            return [t for t, _ in v.args[0]]
        return [a for a in v.args if isinstance(a, V)] + \
            [x for a in v.args if isinstance(a, tuple) for x in a if isinstance(x, V)] + \
            [y for a in v.args if isinstance(a, tuple) for x in a if isinstance(x, tuple)
             for y in x if isinstance(y, V)]
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, Bound):
        return [v.fn, v.self]
    if isinstance(v, Comp):
        return [s for s, _ in v.src] + list(v.guards) + [v.elem]
    return []


F_REF, F_IT, F_UNK = 1, 2, 4


def flags(v):
    """Which of references/functions, iteration numbers and unknowns occur in v."""
    try:
        return v._f
    except AttributeError:
        pass
    f = 0
    if isinstance(v, (Ref, Fn)):
        f = F_REF
    elif isinstance(v, (It, Old)):
        f = F_IT
    elif isinstance(v, Unk):
        f = F_UNK
    else:
        for c in children(v):
            f |= flags(c)
        if isinstance(v, Bound):
            f |= F_REF
    v._f = f
    return f


def walk(v):
    stack = [v]
    while stack:
        x = stack.pop()
        yield x
        stack.extend(children(x))


def has_unk(v):
    return bool(flags(v) & F_UNK)


def _map(a, f):
    if isinstance(a, V):
        return f(a)
    if isinstance(a, tuple):
        return tuple(_map(x, f) for x in a)
    return a


def subst(v, m):
    """Replace values by the mapping m (checked at every node, outermost first)."""
    if v in m:
        return m[v]
    if isinstance(v, (K, Sym, Ext, Unk)):
        return v
    if not flags(v) & F_IT and all(isinstance(k, (It, Old)) for k in m):
        return v
    if isinstance(v, T):
        if v.op == 'lin':
            terms, c = v.args
            r = K(c)
            for t, k in terms:
                r = lin_add(r, lin_scale(subst(t, m), k))
            return r
        n = tuple(_map(a, lambda x: subst(x, m)) for a in v.args)
        return v if n == v.args else T(v.op, *n)
    if isinstance(v, Tup):
        n = tuple(subst(x, m) for x in v.items)
        return v if n == v.items else Tup(n)
    if isinstance(v, Bound):
        return Bound(v.fn, subst(v.self, m))
    if isinstance(v, Comp):
        bound = [It(b) for _, b in v.src if It(b) in m]
        m2 = m
        if bound:           # the generators' own variables are bound here
            m2 = {k: x for k, x in m.items() if k not in bound}
        return Comp([(subst(s, m if i == 0 else m2), b) for i, (s, b) in enumerate(v.src)],
                    [subst(g, m2) for g in v.guards], subst(v.elem, m2))
    return v


# ---- linear arithmetic -------------------------------------------------

def is_num(k):
    return isinstance(k, K) and isinstance(k.v, (int, float)) and not isinstance(k.v, bool)


def lin_parts(v):
    if is_num(v):
        return {}, v.v
    if isinstance(v, K) and isinstance(v.v, bool):
        return {}, int(v.v)
    if isinstance(v, T) and v.op == 'lin':
        return dict(v.args[0]), v.args[1]
    return {v: 1}, 0


def lin_make(d, c):
    d = {t: k for t, k in d.items() if k != 0}
    if not d:
        return K(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return T('lin', tuple(sorted(d.items(), key=lambda x: repr(x[0]))), c)


def lin_add(a, b, sign=1):
    da, ca = lin_parts(a)
    db, cb = lin_parts(b)
    d = dict(da)
    for t, k in db.items():
        d[t] = d.get(t, 0) + sign * k
    return lin_make(d, ca + sign * cb)


def lin_scale(a, k):
    d, c = lin_parts(a)
    return lin_make({t: x * k for t, x in d.items()}, c * k)
