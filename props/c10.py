RULE = """Every public attribute of a pack in an arbitrary state is assigned every kind of value (None, bool, int, float, str,
arbitrary str, list, tuple, dict with good and bad entries, array) by abstract interpretation of the assignment.  An
invalid value must raise on every path and leave every attribute (and the filenames list) the term it was; a valid value
must be stored on every path that returns, with data and names converted to the checked dict classes and fn also
replacing the first of filenames and none of the others.  Deleting a protected attribute must raise AttributeError."""
TECHNIQUE = 'abstract interpretation over a complete table of attributes and value kinds; heap comparison with the specification'
from .common import *       # noqa
from .scen import PackScene, spec

PROTECTED = ('FALLBACK_PREFIX', 'data', 'fn', 'filenames', 'names', 'nof', 'mindur')
SRC = ''.join('def del_%s(p):\n    del p.%s\n\n' % (n, n) for n in PROTECTED) + \
    ''.join('def dela_%s(p):\n    delattr(p, %r)\n\n' % (n, n) for n in PROTECTED)


def arr(st, n='A'):
    return M.new_array(st, T('at', Sym(n, 'ndarray'), K(0)), T('len', Sym(n, 'ndarray')), 'b', n)


def dct(*ents):
    def f(st):
        d = DictObj()
        d.ents = tuple(('one', k, v(st) if callable(v) else v) for k, v in ents)
        return st.alloc(d)
    return f


def lst(st):
    return st.alloc(ListObj('list', [('one', TRUE), ('one', FALSE)]))


def k(v):
    return lambda st: K(v)


VALUES = {
    'None': k(None), 'True': k(True), '0': k(0), '3': k(3), '2.5': k(2.5), '3.0': k(3.0), '-1': k(-1), "'3'": k('3'), "b'x'": k(b'x'), "'Filter'": k('Filter'),
    "''": k(''), "'nan'": k('nan'),
    "'filter'": k('filter'), "'ignore'": k('ignore'), "'NaN'": k('NaN'), "'x1'": k('x1'),
    'any str': lambda st: Sym('s', 'str'), 'any float': lambda st: Sym('x', 'float'), 'any int': lambda st: Sym('n', 'int'),
    'a list': lst, 'a tuple': lambda st: Tup([TRUE, FALSE]), 'an array': arr, 'a dict': dct((K(1), arr)),
}
VALID = {
    'nof': {'None', "'nan'", "'filter'"},
    'FALLBACK_PREFIX': {"'3'", "'Filter'", "''", "'nan'", "'filter'", "'ignore'", "'NaN'", "'x1'", 'any str'},
    'mask': {'an array'},
    'mindur': {'None', '0', '3', '-1', 'any int', 'True'},
    'fn': {"'3'", "'Filter'", "''", "'nan'", "'filter'", "'ignore'", "'NaN'", "'x1'", 'any str'},
}
SKIP = {('nof', 'any str'), ('nof', 'an array'), ('mindur', 'True')}
DICTS = {'a dict of int key to array': (dct((K(1), arr)), True, True),
         'a dict with a str key': (dct((K('a'), arr)), False, False),
         'a dict with a good and a str key': (dct((K(1), arr), (K('a'), arr)), False, False),
         'a dict of int key to str': (dct((K(1), K('v'))), None, True)}
ATTRS = ('nof', 'FALLBACK_PREFIX', 'mindur', 'fn', 'data', 'names', 'filenames', 'mask')


def snap(sc, s, skip=()):
    """terms of all attributes, with the content of lists, dicts and arrays"""
    o = s.get(sc.pack)
    out = {}
    for n in ATTRS:
        if n in skip:
            continue
        v = o.attrs.get(n)
        if isinstance(v, Ref) and v.id in s.heap:
            ob = s.get(v)
            if ob.kind == 'inst':
                d = s.get(ob.d) if ob.d is not None else None
                out[n] = (v, d.base, d.ents) if d is not None else (v,)
            elif ob.kind == 'array':
                out[n] = (v, ob.elem, ob.length)
            elif ob.kind == 'list':
                out[n] = (v, ob.segs)
            else:
                out[n] = (v,)
        else:
            out[n] = v
    return out


def scene(P, files):
    sc = PackScene(P)
    E = sc.E
    sts = sc.starts
    st = sts[0].copy()
    o = st.mut(sc.pack)
    ref = o.attrs.get('filenames')
    l = ListObj('list', [('one', f) for f in files])
    if isinstance(ref, Ref):
        st.heap[ref.id] = l
    else:
        o.attrs['filenames'] = st.alloc(l)
    if files:
        o.attrs['fn'] = files[0]
    sc.st = st
    return sc


def check(P, r):
    spec(P, SRC, 'verif_c10')
    where = P.cls(PACK).mod.rel
    f0, f1 = Sym('f0', 'str'), Sym('f1', 'str')
    with r.obligation('the dicts of a new pack'):
        E = Engine(P, [])
        for s, ref in E.instantiate(P.cls(PACK), [], {}, E.new_state()):
            for a in ('data', 'names'):
                v = s.get(ref).attrs.get(a)
                if isinstance(v, Ref) and s.get(v).kind == 'dict':
                    r.viol('unchecked:' + a, 'a new pack has a plain dict as %s' % a, where)
    for attr in VALID:
        for vt, mv in VALUES.items():
            if (attr, vt) in SKIP:
                continue
            for files in ([[f0], [f0, f1], []] if attr == 'fn' else [[f0, f1]]):
                name = '%s = %s%s' % (attr, vt, ' with %d filenames' % len(files) if attr == 'fn' else '')
                with r.obligation(name):
                    sc = scene(P, files)
                    v = mv(sc.st)
                    assign(r, sc, name, attr, v, vt in VALID[attr], files, where)
                    r.engine(sc.E)
    with r.obligation('nof = any str'):
        sc = scene(P, [f0, f1])
        s0 = Sym('s', 'str')
        before = snap(sc, sc.st)
        for kind, s, v in sc.assign('nof', s0):
            if s.taint:
                r.undecided('nof = any str', 'unknown')
            elif kind == 'return':
                if not any(w and isinstance(a, T) and a.op in ('eq', 'in') and s0 in a.args for a, w in s.facts.items()):
                    if all(within(a, DATA_OPS | {'in', 'isinst', 'is'}) for a in s.facts):
                        r.viol('accepts:nof', 'nof = any str: accepted on a path that does not establish that it is '
                               "'nan' or 'filter' (%s)" % facts_text(s), where)
                    else:
                        r.undecided('nof = any str', facts_text(s))
            elif snap(sc, s) != before:
                r.viol('partial:nof', 'nof = any str: raises after a change', v.site)
        r.engine(sc.E)
    for attr in ('data', 'names'):
        for vt, (mv, gd, gn) in DICTS.items():
            good = gd if attr == 'data' else gn
            if good is None:
                continue
            name = '%s = %s' % (attr, vt)
            with r.obligation(name):
                sc = scene(P, [f0, f1])
                assign(r, sc, name, attr, mv(sc.st), good, [f0, f1], where)
                r.engine(sc.E)
    for n in PROTECTED:
        for fn in ('del_', 'dela_'):
            name = 'del pack.%s (%s)' % (n, 'statement' if fn == 'del_' else 'delattr')
            with r.obligation(name):
                sc = scene(P, [f0, f1])
                before = snap(sc, sc.st)
                for kind, s, v in sc.E.run(P.func('verif_c10.' + fn + n), [sc.pack], {}, st=sc.st.copy()):
                    if s.taint:
                        r.undecided(name, 'unknown')
                    elif kind == 'return':
                        r.viol('deleted:' + n, '%s: does not raise' % name, where)
                    elif snap(sc, s) != before:
                        r.viol('deleted:' + n, '%s: raises after a change' % name, v.site)
                    elif v.name != 'AttributeError' and not v.implicit:
                        r.viol('deleted:' + n, '%s: raises %s' % (name, v.name), v.site)
                r.engine(sc.E)


def assign(r, sc, name, attr, v, good, files, where):
    before = snap(sc, sc.st)
    own = {'data': ('data', 'mask'), 'mask': ('mask',), 'mindur': ('mindur', 'mask'), 'fn': ('fn', 'filenames')}.get(
        attr, (attr,))
    for kind, s, e in sc.assign(attr, v):
        r.count('paths')
        if s.taint:
            r.undecided(name, 'path depends on unknown')
            continue
        if kind == 'raise':
            if good:
                if not e.implicit:
                    r.viol('rejects:' + attr, '%s: raises %s for a valid value (path: %s)' % (
                        name, e.name, facts_text(s)), e.site)
            else:
                now = snap(sc, s)
                ch = [n for n in before if now.get(n) != before[n]]
                if ch:
                    r.viol('partial:' + attr, '%s: raises %s after %s was changed' % (name, e.name, ', '.join(ch)), e.site)
            continue
        if not good:
            r.viol('accepts:' + attr, '%s: an invalid value is accepted (path: %s)' % (name, facts_text(s)), where)
            continue
        now = snap(sc, s)
        ch = [n for n in before if n not in own and now.get(n) != before[n]]
        if ch:
            r.viol('sideeffect:' + attr, '%s: also changes %s' % (name, ', '.join(ch)), where)
        got = s.get(sc.pack).attrs.get(attr)
        if attr in ('nof', 'FALLBACK_PREFIX', 'mindur', 'fn'):
            if got != v:
                if isinstance(got, (K, Sym)):
                    r.viol('stored:' + attr, '%s: stores %s' % (name, show(got)), where)
                else:
                    r.undecided(name, 'stores %s' % show(got))
        elif attr in ('data', 'names'):
            want = 'channelpack.pack.NpDict' if attr == 'data' else 'channelpack.pack.IntKeyDict'
            o = s.get(got) if isinstance(got, Ref) else None
            if o is None or o.kind not in ('inst', 'dict'):
                r.undecided(name, 'stores %s' % show(got))
            elif o.kind == 'dict':
                r.viol('unchecked:' + attr, '%s: a plain dict is stored' % name, where)
            else:
                q = getattr(o.cls, 'qual', o.cls)
                mro = [c.qual if hasattr(c, 'qual') else c for c in sc.P.mro(o.cls)] if hasattr(sc.P, 'mro') and \
                    hasattr(o.cls, 'qual') else [q]
                if want not in mro:
                    if attr == 'data' and 'channelpack.pack.IntKeyDict' in mro:
                        r.viol('unchecked:' + attr, '%s: stored as %s' % (name, q), where)
                    else:
                        r.undecided(name, 'stored as %s' % q)
        if attr == 'fn':
            l = s.get(sc.pack).attrs.get('filenames')
            it = sc.E.fixed_items(l, s) if isinstance(l, Ref) else None
            want = [v] + files[1:]
            if it is None:
                r.undecided(name, 'filenames %s' % show(l))
            elif it != want:
                r.viol('filenames', '%s: filenames becomes %s, expected %s' % (name, show(it), show(want)), where)
