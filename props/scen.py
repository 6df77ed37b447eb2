"""Symbolic packs and small comparison helpers."""
from .common import *       # noqa

P_SLICES = 'channelpack.datautils.slicelist'


def slices_model(E, st, bound):
    """True sections of a boolean array: an uninterpreted function of its elements."""
    a = bound.get('b')
    if a is None:
        a = list(bound.values())[0]
    E.emit('slicelist', st, arr=a)
    el = E.elem_of(a, st)
    if E.length(a, st) == K(0):
        return [(st, st.alloc(ListObj('list', [])))]
    return [(st, st.alloc(ListObj('list', [('seq', T('slices', el, E.length(a, st)))])))]


def empty_sections(s, cur):
    """the path has established that the list of sections is empty"""
    if s.facts.get(T('truthy', cur)) is False:
        return True
    n = T('len', cur)
    return s.facts.get(T('truthy', n)) is False or any(
        v is True and isinstance(f, T) and f.op in ('==', 'eq') and n in f.args and K(0) in f.args
        for f, v in s.facts.items())


def col(base, k, dk=None, n=None):
    return T('at', T('item', base, k), K(0))


class PackScene(object):
    """A ChannelPack with arbitrary data, names and mask, built through the
    class's own constructor and attribute assignments."""

    def __init__(self, P, r=None, observers=(), may_raise=False, opaque=(), slices=True, nonempty=None,
                 colkind=None, mask=True, names_nonempty=None, other=False):
        self.P = P
        op = {q: q for q in opaque} if not isinstance(opaque, dict) else dict(opaque)
        if slices:
            op[P_SLICES] = slices_model
            P.func(P_SLICES)
        self.muted = True
        self.E = E = Engine(P, [self._obs], may_raise=False, opaque=op)
        self.user_obs = list(observers)
        self.st = st = E.new_state()
        self.pack = self._mk(st, 'p', nonempty, names_nonempty, colkind)
        if other:
            self.other = self._mk(st, 'o', None, None, None)
        sts = [st]
        if mask:
            self.mask_elem = T('at', Sym('mask0', 'ndarray'), K(0))
            self.mask_len = T('len', Sym('mask0', 'ndarray'))
            m = M.new_array(st, self.mask_elem, self.mask_len, 'b', 'mask0')
            self.given_mask = m
            sts = E.setattr(self.pack, 'mask', m, st)
            if not sts:
                raise ValueError('mask assignment always raises')
        self.starts = sts
        self.st = sts[0]
        E.may_raise = may_raise
        for x0 in self.starts:
            x0.ghost['$roots'] = Tup([x for x in (self.pack, getattr(self, 'given_mask', None),
                                          getattr(self, 'other', None)) if x is not None])
        self.muted = False

    def _obs(self, kind, st, info):
        if not self.muted:
            for o in self.user_obs:
                o(kind, st, info)

    def _mk(self, st, label, nonempty, names_nonempty, colkind):
        E, P = self.E, self.P
        r = E.instantiate(P.cls(PACK), [], {}, st)
        if len(r) != 1:
            raise ValueError('construction of an empty pack forks: %d' % len(r))
        s, ref = r[0]
        if s is not st:
            # keep working on one state object
            for sl in State_slots:
                setattr(st, sl, getattr(s, sl))
        for attr, base in (('data', Sym(label + '.data', 'dict')), ('names', Sym(label + '.names', 'dict'))):
            ob = st.get(st.get(ref).attrs[attr])
            if ob.kind != 'inst' or ob.d is None:
                raise ValueError('%s is not a dict subclass instance' % attr)
            d = st.mut(ob.d)
            d.base, d.ents = base, ()
            d.intkeys = True
            E.intkey_bases.add(base)
            d.nonempty = nonempty if attr == 'data' else names_nonempty
            if d.nonempty is not None:
                st.facts[T('truthy', base)] = d.nonempty
            if attr == 'data':
                d.factory = self.factory(label, colkind)
        return ref

    def factory(self, label, colkind):
        def f(E, st, base, k):
            return st.alloc(ArrObj(col(base, k), T('len', T('item', base, k)), colkind,
                                   '%s[%s]' % (base, show(k, 40))))
        return f

    def set(self, name, v, st=None):
        sts = self.E.setattr(self.pack, name, v, st or self.st)
        return sts

    def call(self, meth, args=(), kw=None, st=None, pack=None):
        """Run a public method.  -> [(kind, state, value)]"""
        st = st if st is not None else self.st.copy()
        self.E.steps = 0
        fi = self.P.func(PACK + '.' + meth)
        return self.E.run(fi, [pack or self.pack] + list(args), kw or {}, st=st)

    def assign(self, name, v, st=None):
        st = st if st is not None else self.st.copy()
        E = self.E
        E.steps = 0
        E.sinks.append([])
        sts = E.setattr(self.pack, name, v, st)
        sink = E.sinks.pop()
        return [('return', s, NONE) for s in sts] + [('raise', s, e) for s, e in sink]

    def mask_of(self, st):
        m = st.get(self.pack).attrs.get('mask')
        return m, (st.get(m) if isinstance(m, Ref) else None)


# ------------------------------------------------------------------ operations on a pack
def new_mask(st, name='m1'):
    return M.new_array(st, T('at', Sym(name, 'ndarray'), K(0)), T('len', Sym(name, 'ndarray')), 'b', name)


def op_edit_assign(sc, st):
    """edit the mask array in place, then assign it"""
    m = sc.mask_of(st)[0]
    M.arr_write(sc.E, st, m, 'by the caller', K(0), FALSE)
    return sc.assign('mask', m, st)


OPS = {
    'mask = array': lambda sc, st: sc.assign('mask', new_mask(st), st),
    'mask edited in place and assigned': op_edit_assign,
    'data = dict': lambda sc, st: sc.assign('data', Sym('D', 'dict'), st),
    'mindur = n': lambda sc, st: sc.assign('mindur', Sym('n2', 'int'), st),
    'mindur = None': lambda sc, st: sc.assign('mindur', NONE, st),
    'startstop(apply=True)': lambda sc, st: sc.call('startstop', [Sym('A'), Sym('B')], {}, st),
    'startstop(apply=False)': lambda sc, st: sc.call('startstop', [Sym('A'), Sym('B'), FALSE], {}, st),
    'duration(d, rate)': lambda sc, st: sc.call('duration', [Sym('d', 'num'), Sym('rate', 'num')], {}, st),
    'duration(d, rate, mindur=False)': lambda sc, st: sc.call(
        'duration', [Sym('d', 'num'), Sym('rate', 'num')], {'mindur': FALSE}, st),
    'mask_reset()': lambda sc, st: sc.call('mask_reset', [], {}, st),
    'append_pack(other)': lambda sc, st: sc.call('append_pack', [sc.other], {}, st),
    'names = dict': lambda sc, st: sc.assign('names', Sym('NN', 'dict'), st),
    'nof = filter': lambda sc, st: sc.assign('nof', K('filter'), st),
    'fn = name': lambda sc, st: sc.assign('fn', Sym('fname', 'str'), st),
}


from pyflow.interp import State as _State       # noqa
State_slots = _State.__slots__


# ------------------------------------------------------------------ boolean terms
BOOLOPS = ('and', 'or', 'not', 'ite', 'xor')


def bool_atoms(e, out):
    if isinstance(e, K):
        return
    if isinstance(e, T) and e.op in BOOLOPS:
        for a in e.args:
            bool_atoms(a, out)
    else:
        out.add(e)


def bool_eval(e, env):
    if isinstance(e, K):
        return bool(e.v)
    if isinstance(e, T) and e.op in BOOLOPS:
        v = [bool_eval(a, env) for a in e.args]
        if e.op == 'and':
            return v[0] and v[1]
        if e.op == 'or':
            return v[0] or v[1]
        if e.op == 'not':
            return not v[0]
        if e.op == 'xor':
            return v[0] != v[1]
        return v[1] if v[0] else v[2]
    return env[e]


def bool_same(e, want, known):
    """True/False/None (not decidable): e and want as boolean functions of atoms;
    atoms of e not in `known` make it undecided."""
    a1, a2 = set(), set()
    bool_atoms(e, a1)
    bool_atoms(want, a2)
    if e == want:
        return True
    if not a1 <= (set(known) | a2):
        return None
    atoms = sorted(a1 | a2, key=repr)
    if len(atoms) > 8:
        return None
    for m in range(2 ** len(atoms)):
        env = {x: bool(m >> i & 1) for i, x in enumerate(atoms)}
        if bool_eval(e, env) != bool_eval(want, env):
            return False
    return True


# ------------------------------------------------------------------ specification code
def spec(P, src, name='verif_spec'):
    """Specification functions written in Python, interpreted by the same engine."""
    if name in P.modules:
        old = P.modules[name]
        if old.src == src:
            return
    P.add_source(name, src)


def spec_call(sc, st, fname, args, name='verif_spec'):
    """-> [(kind, state, value)] of a specification function run on a copy of st"""
    muted, sc.muted = sc.muted, True
    mr, sc.E.may_raise = sc.E.may_raise, False
    try:
        return sc.E.run(sc.P.func(name + '.' + fname), args, {}, st=st.copy())
    finally:
        sc.muted = muted
        sc.E.may_raise = mr


def shaped_pack(P, keys, names, colkind=None, mask=False):
    """a pack with given data keys (symbolic columns) and a given names dict -> scene with .cols: key -> array"""
    sc = PackScene(P, mask=mask, colkind=colkind)
    st = sc.st = sc.st.copy()
    at = st.get(sc.pack).attrs
    d = st.mut(st.get(at['data']).d)
    n = st.mut(st.get(at['names']).d)
    for t in (T('truthy', d.base), T('truthy', n.base)):
        st.facts.pop(t, None)
    d.base = n.base = None
    d.nonempty = n.nonempty = None
    d.lazy, d.factory = {}, None
    sc.cols = {}
    for k in keys:
        s = Sym('c%d' % k, 'ndarray')
        sc.cols[k] = M.new_array(st, T('at', s, K(0)), T('len', Sym('p', 'ndarray')), colkind, s.name)
    d.ents = tuple(('one', K(k), sc.cols[k]) for k in keys)
    n.ents = tuple(('one', K(k), v if isinstance(v, V) else K(v)) for k, v in names.items())
    if not mask:
        st.mut(sc.pack).attrs['mask'] = M.new_array(st, T('at', Sym('mask0', 'ndarray'), K(0)),
                                                    T('len', Sym('p', 'ndarray')), 'b', 'mask0')
    return sc
