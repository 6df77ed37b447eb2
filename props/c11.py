RULE = """append_pack(other) is interpreted abstractly (a) for every combination of key sets of the data and names dicts of both
packs (empty, equal, equal in another order, subset, superset, overlapping; arrays symbolic) and (b) for arbitrary dicts.
Every outcome must be the specified one: ValueError with this pack term for term as before iff two non-empty dicts have
different keys, else every column the concatenation of own rows and other's, filenames extended, the mask all True of the
new length.  On every path no write reaches an object of the other pack and no dict or list of other becomes reachable
from this pack."""
TECHNIQUE = 'abstract interpretation over all key-set relations plus an effect and alias analysis for arbitrary dicts'
from .common import *       # noqa
from .scen import PackScene

SHAPES = {'empty': (), '1,2': (1, 2), '2,1': (2, 1), '1': (1,), '1,3': (1, 3), '1,2,3': (1, 2, 3)}
WRITES = ('dictstore', 'dictupdate', 'dictdel', 'listwrite', 'arrwrite', 'setattr', 'delattr', 'itemstore')


def make(P, dk, nk, odk, onk, files=2):
    sc = PackScene(P, other=True, mask=False)
    st = sc.st
    st = sc.st = st.copy()
    cols = {}
    for lab, ref, keys, nkeys in (('p', sc.pack, dk, nk), ('o', sc.other, odk, onk)):
        at = st.get(ref).attrs
        d = st.mut(st.get(at['data']).d)
        n = st.mut(st.get(at['names']).d)
        for t in (T('truthy', d.base), T('truthy', n.base)):
            st.facts.pop(t, None)
        d.base = n.base = None
        d.nonempty = n.nonempty = None
        d.lazy, d.factory = {}, None
        ents = []
        for k in keys:
            s = Sym('%s%d' % (lab, k), 'ndarray')
            a = M.new_array(st, T('at', s, K(0)), T('len', Sym(lab, 'ndarray')), None, s.name)
            cols[lab, k] = a
            ents.append(('one', K(k), a))
        d.ents = tuple(ents)
        n.ents = tuple(('one', K(k), Sym('%sn%d' % (lab, k), 'str')) for k in nkeys)
        fl = at['filenames']
        st.heap[fl.id] = ListObj('list', [('one', Sym('%sf%d' % (lab, i), 'str')) for i in range(files)])
        if lab == 'p':
            m = M.new_array(st, T('at', Sym('mask0', 'ndarray'), K(0)), T('len', Sym('p', 'ndarray')), 'b', 'mask0')
            st.mut(ref).attrs['mask'] = m
    sc.cols = cols
    return sc


def objs(st, ref):
    """heap objects of a pack"""
    out = {ref: 'the pack'}
    for n, v in st.get(ref).attrs.items():
        if isinstance(v, Ref) and v.id in st.heap:
            out[v] = n
            o = st.get(v)
            if o.kind == 'inst' and getattr(o, 'd', None) is not None:
                out[o.d] = n
                for e in st.get(o.d).ents:
                    if e[0] == 'one' and isinstance(e[2], Ref):
                        out[e[2]] = '%s[%s]' % (n, e[1])
                for k, a in st.get(o.d).lazy.items():
                    out[a] = '%s[%s]' % (n, show(k, 30))
    return out


def contents(st, ref):
    out = {}
    for n, v in st.get(ref).attrs.items():
        if n.startswith('_'):
            continue
        if isinstance(v, Ref) and v.id in st.heap:
            o = st.get(v)
            if o.kind == 'inst' and getattr(o, 'd', None) is not None:
                d = st.get(o.d)
                out[n] = (v, d.base, tuple((e[:2] + ((st.get(e[2]).elem, st.get(e[2]).length) if isinstance(e[2], Ref)
                                                     and st.get(e[2]).kind == 'array' else e[2],)) if e[0] == 'one' else e
                                           for e in d.ents))
            elif o.kind == 'array':
                out[n] = (v, o.elem, o.length)
            elif o.kind == 'list':
                out[n] = (v, o.segs)
            else:
                out[n] = v
        else:
            out[n] = v
    return out


def mutable_shared(s, sc):
    """dicts and lists of other reachable from this pack"""
    mine = objs(s, sc.pack)
    out = []
    for ref, n in objs(s, sc.other).items():
        if ref in mine and s.get(ref).kind in ('inst', 'dict', 'list'):
            out.append(n)
    return out


class Watch(object):
    def __init__(self):
        self.targets, self.hits = {}, []

    def __call__(self, kind, st, info):
        if kind not in WRITES:
            return
        for f in ('obj', 'list', 'arr'):
            v = info.get(f)
            if isinstance(v, Ref) and v in self.targets and not st.taint:
                if kind == 'setattr' and str(info.get('name', '')).startswith('_'):
                    continue
                self.hits.append((self.targets[v], kind))


def check(P, r):
    where = P.func(PACK + '.append_pack').where
    thorough = getattr(r, 'tier', 'quick') == 'thorough'
    for pd in ('empty', '1,2'):
        for od in SHAPES:
            for pn, on in (('empty', 'empty'), ('1,2', '1,2'), ('1,2', '2,1'), ('1,2', '1'), ('empty', '1,2'),
                           ('1,2', 'empty'), ('1', '1,3')):
                name = 'data {%s} + {%s}, names {%s} + {%s}' % (pd, od, pn, on)
                with r.obligation(name):
                    one(P, r, name, pd, od, pn, on, where)
    with r.obligation('arbitrary dicts'):
        generic(P, r, where)


def one(P, r, name, pd, od, pn, on, where):
    S = SHAPES
    sc = make(P, S[pd], S[pn], S[od], S[on])
    w = Watch()
    w.targets = objs(sc.st, sc.other)
    sc.user_obs.append(w)
    before = contents(sc.st, sc.pack)
    obefore = contents(sc.st, sc.other)
    clash = bool(S[pd] and S[od] and set(S[pd]) != set(S[od])) or bool(S[pn] and S[on] and set(S[pn]) != set(S[on]))
    outs = sc.call('append_pack', [sc.other])
    r.engine(sc.E)
    if not outs:
        r.undecided(name, 'no outcome')
    for hit, kind in w.hits:
        r.viol('other', '%s: writes %s of the other pack (%s)' % (name, hit, kind), where)
    for kind, s, v in outs:
        r.count('paths')
        if s.taint:
            r.undecided(name, 'path depends on unknown')
            continue
        if contents(s, sc.other) != obefore:
            r.viol('other', '%s: the other pack is changed' % name, where)
        now = contents(s, sc.pack)
        if kind == 'raise':
            if v.implicit:
                continue
            if not clash:
                r.viol('raise', '%s: raises %s (path: %s)' % (name, v.name, facts_text(s)), v.site)
            elif v.name != 'ValueError':
                r.viol('raise', '%s: raises %s, not ValueError' % (name, v.name), v.site)
            ch = [n for n in before if now.get(n) != before[n]]
            if ch and clash:
                r.viol('partial', '%s: raises %s after %s was changed' % (name, v.name, ', '.join(ch)), v.site)
            continue
        if clash:
            r.viol('accepts', '%s: keys differ but no error' % name, where)
            continue
        sh = mutable_shared(s, sc)
        if sh:
            r.viol('alias', '%s: %s of the other pack becomes part of this pack' % (name, ', '.join(sorted(set(sh)))), where)
        result(r, sc, s, name, S[pd], S[od], S[pn], S[on], where)


def result(r, sc, s, name, pd, od, pn, on, where):
    at = s.get(sc.pack).attrs
    E = sc.E
    d = s.get(s.get(at['data']).d)
    if d.base is not None or any(e[0] != 'one' for e in d.ents):
        return r.undecided(name, 'data %s' % show(d.ents))
    got = {e[1]: e[2] for e in d.ents}
    keys = pd or od
    if set(got) != {K(k) for k in keys}:
        return r.viol('keys', '%s: data has keys %s afterwards' % (name, sorted(map(repr, got))), where)
    total = None
    for k in keys:
        a = s.get(got[K(k)]) if isinstance(got[K(k)], Ref) else None
        if a is None or a.kind != 'array':
            return r.undecided(name, 'column %d is %s' % (k, show(got[K(k)])))
        p, o = T('at', Sym('p%d' % k, 'ndarray'), K(0)), T('at', Sym('o%d' % k, 'ndarray'), K(0))
        want = T('cat', p, o) if pd and od else p if pd else o
        ln = lin_add(T('len', Sym('p', 'ndarray')), T('len', Sym('o', 'ndarray'))) if pd and od else \
            T('len', Sym('p' if pd else 'o', 'ndarray'))
        total = ln
        if a.elem != want or a.length != ln:
            if within(a.elem, DATA_OPS) and within(a.length, DATA_OPS):
                return r.viol('rows', '%s: column %d becomes %s of length %s, expected %s' % (
                    name, k, show(a.elem), show(a.length), show(want)), where)
            return r.undecided(name, 'column %d is %s' % (k, show(a.elem)))
    n = s.get(s.get(at['names']).d)
    wn = [('one', K(k), Sym('%sn%d' % ('p' if pn else 'o', k), 'str')) for k in (pn or on)]
    if n.base is not None or any(e[0] != 'one' for e in n.ents):
        r.undecided(name, 'names %s' % show(n.ents))
    elif set(n.ents) != set(wn):
        r.viol('names', '%s: names become %s' % (name, show(n.ents)), where)
    fl = E.fixed_items(at['filenames'], s) if isinstance(at['filenames'], Ref) else None
    wf = [Sym('pf0', 'str'), Sym('pf1', 'str'), Sym('of0', 'str'), Sym('of1', 'str')]
    if fl is None:
        r.undecided(name, 'filenames %s' % show(at['filenames']))
    elif list(fl) != wf:
        r.viol('filenames', '%s: filenames become %s' % (name, show(fl)), where)
    m = s.get(at['mask']) if isinstance(at['mask'], Ref) else None
    if m is None:
        r.undecided(name, 'mask')
    elif total is not None:
        if m.elem != TRUE or m.length != total:
            if within(m.elem, DATA_OPS) and within(m.length, DATA_OPS):
                r.viol('mask', '%s: the mask becomes %s of length %s' % (name, show(m.elem), show(m.length)), where)
            else:
                r.undecided(name, 'mask %s of %s' % (show(m.elem), show(m.length)))
    elif m.length != K(0):
        if within(m.length, DATA_OPS):
            r.viol('mask', '%s: the mask has length %s without data' % (name, show(m.length)), where)


def generic(P, r, where):
    sc = PackScene(P, other=True)
    w = Watch()
    w.targets = objs(sc.st, sc.other)
    sc.user_obs.append(w)
    before, obefore = contents(sc.st, sc.pack), contents(sc.st, sc.other)
    outs = sc.call('append_pack', [sc.other])
    r.engine(sc.E)
    for hit, kind in w.hits:
        r.viol('other', 'arbitrary dicts: writes %s of the other pack (%s)' % (hit, kind), where)
    for kind, s, v in outs:
        if s.taint:
            r.undecided('arbitrary dicts', 'path depends on unknown')
            continue
        now = contents(s, sc.pack)
        if kind == 'raise':
            if not v.implicit:
                ch = [n for n in before if now.get(n) != before[n]]
                if ch:
                    r.viol('partial', 'arbitrary dicts: raises %s after %s was changed (path: %s)' % (
                        v.name, ', '.join(ch), facts_text(s)), v.site)
            continue
        sh = mutable_shared(s, sc)
        if sh:
            r.viol('alias', 'arbitrary dicts: %s of the other pack becomes part of this pack' % ', '.join(sorted(set(sh))),
                   where)
