RULE = """Every way to change the checked dicts (construction, item assignment, update with a mapping, with pairs, with an
iterator of pairs, with keywords, setdefault, |=) is interpreted abstractly for IntKeyDict and NpDict instances with
arbitrary previous content, for every combination of integer and non-integer keys and of one-dimensional arrays, lists,
arrays of other rank and scalars, alone and behind an accepted entry.  Outcomes are compared with the specification: a
valid entry is stored (a given array as the very object, not a copy), an invalid one ends in an exception on every path,
and on every exceptional path the content of the dict is the term it was before."""
TECHNIQUE = 'abstract interpretation of every mutation path over key/value kinds; heap comparison on exceptional exits'
from .common import *       # noqa
from .scen import spec

SRC = '''
def setitem(d, k, v):
    d[k] = v

def update_dict(d, k, v):
    d.update({k: v})

def update_pairs(d, k, v):
    d.update([(k, v)])

def update_listpairs(d, k, v):
    d.update([[k, v]])

def update_tuple(d, k, v):
    d.update(((k, v),))

def update_iter(d, k, v):
    d.update(iter([(k, v)]))

def setdefault(d, k, v):
    d.setdefault(k, v)

def ior_dict(d, k, v):
    d |= {k: v}

def ior_pairs(d, k, v):
    d |= [(k, v)]

def update_dict2(d, k, v, w):
    d.update({101: w, k: v})

def update_pairs2(d, k, v, w):
    d.update([(101, w), (k, v)])

def update_dictkw(d, v, w):
    d.update({101: w}, a=v)

def update_kw(d, v):
    d.update(a=v)

def ior2(d, k, v, w):
    d |= {101: w, k: v}

def update_dict3(d, k, v, w):
    d.update({k: v, 101: w})

def update_pairs3(d, k, v, w):
    d.update([(k, v), (101, w)])
'''
GOODK = [('an int', lambda: Sym('k', 'int')), ('7', lambda: K(7))]
BADK = [('a str', lambda: Sym('s', 'str')), ('a float', lambda: Sym('f', 'float')), ('None', lambda: NONE),
        ("'7'", lambda: K('7')), ('1.0', lambda: K(1.0))]


def arr1(st):
    return M.new_array(st, T('at', Sym('a', 'ndarray'), K(0)), T('len', Sym('a', 'ndarray')), None, 'a')


def arr2(st):
    return M.new_array(st, T('at', Sym('a', 'ndarray'), K(0)), T('len', Sym('a', 'ndarray')), None, 'a', None, K(2))


def arr0(st):
    return M.new_array(st, T('at', Sym('a', 'ndarray'), K(0)), T('len', Sym('a', 'ndarray')), None, 'a', None, K(0))


def seq(ndim):
    def f(st):
        v = Sym('v%d' % ndim, 'list')
        t = T('ndim', v)
        for a, w in ((T('eq', K(1), t), ndim == 1), (T('eq', t, K(1)), ndim == 1), (T('eq', K(0), t), False),
                     (T('eq', K(2), t), ndim == 2)):
            st.facts[a] = w
        return v
    return f


def scalar(st):
    v = Sym('x', 'float')
    t = T('ndim', v)
    for n in (0, 1, 2):
        st.facts[T('eq', K(n), t)] = n == 0
    return v


GOODV = [('a 1-d array', arr1), ('a flat list', seq(1))]
BADV = [('a 2-d array', arr2), ('a nested list', seq(2)), ('a scalar', scalar), ('a 0-d array', arr0)]
PATHS = ['setitem', 'update_dict', 'update_pairs', 'update_listpairs', 'update_tuple', 'update_iter', 'setdefault',
         'ior_dict', 'ior_pairs']
PATHS2 = ['update_dict2', 'update_pairs2', 'ior2', 'update_dict3', 'update_pairs3']
NEW = Sym('d0', 'dict')


class Scene(object):
    def __init__(self, P, cls):
        self.P, self.cls = P, cls
        self.E = E = Engine(P, [])
        st = E.new_state()
        res = E.instantiate(P.cls('channelpack.pack.' + cls), [], {}, st)
        if len(res) != 1:
            raise ValueError('construction forks')
        self.st, self.ref = res[0]
        self.D = self.st.get(self.ref).d
        d = self.st.mut(self.D)
        d.base, d.ents, d.intkeys = NEW, (), True
        E.intkey_bases.add(NEW)


def content(s, D):
    o = s.get(D)
    return (o.base, o.ents)


def check(P, r):
    spec(P, SRC, 'verif_c09')
    mod = P.cls('channelpack.pack.IntKeyDict').mod.rel
    for cls in ('IntKeyDict', 'NpDict'):
        np_ = cls == 'NpDict'
        goodv = GOODV if np_ else [('a value', lambda st: Sym('v'))]
        badv = BADV if np_ else []
        for path in PATHS + PATHS2:
            for kt, mk in GOODK + BADK:
                for vt, mv in goodv + badv:
                    if path in PATHS2 and not isinstance(mk(), K):
                        continue
                    good = (kt, mk) in GOODK and (vt, mv) in goodv
                    name = '%s %s, key %s, value %s' % (cls, path, kt, vt)
                    with r.obligation(name):
                        sc = Scene(P, cls)
                        st = sc.st
                        k, v = mk(), mv(st)
                        args = [sc.ref, k, v]
                        if path in PATHS2:
                            args.append(arr1(st))
                        if path == 'setdefault':
                            st.facts[T('in', k, NEW)] = False
                        run(r, P, sc, name, path, args, good, k, v, np_, mod)
        for path in ('update_kw', 'update_dictkw'):
            name = '%s %s' % (cls, path)
            with r.obligation(name):
                sc = Scene(P, cls)
                v = arr1(sc.st)
                args = [sc.ref, v] + ([arr1(sc.st)] if path == 'update_dictkw' else [])
                run(r, P, sc, name, path, args, False, K('a'), v, np_, mod)
        # construction
        for kt, mk in GOODK + BADK:
            for vt, mv in goodv + badv:
                for form in ('dict', 'pairs'):
                    good = (kt, mk) in GOODK and (vt, mv) in goodv
                    name = '%s constructed from %s, key %s, value %s' % (cls, form, kt, vt)
                    with r.obligation(name):
                        construct(r, P, cls, name, form, mk(), mv, good, np_, mod)


def construct(r, P, cls, name, form, k, mv, good, np_, mod):
    E = Engine(P, [])
    st = E.new_state()
    v = mv(st)
    spec(P, 'def mk_dict(c, k, v):\n    return c({k: v})\ndef mk_pairs(c, k, v):\n    return c([(k, v)])\n', 'verif_c09b')
    outs = E.run(P.func('verif_c09b.mk_' + form), [Cls(P.cls('channelpack.pack.' + cls)), k, v], {}, st=st)
    r.engine(E)
    for kind, s, x in outs:
        if s.taint:
            r.undecided(name, 'path depends on unknown')
        elif kind == 'raise':
            if good and not x.implicit:
                r.viol('rejects', '%s: raises %s for a valid entry' % (name, x.name), x.site)
        elif not isinstance(x, Ref) or s.get(x).kind != 'inst' or not getattr(s.get(x), 'd', None):
            r.undecided(name, 'constructed %s' % show(x))
        else:
            o = s.get(s.get(x).d)
            stored(r, name, s, o, k, v, good, np_, mod)


def run(r, P, sc, name, path, args, good, k, v, np_, mod):
    before = content(sc.st, sc.D)
    outs = sc.E.run(P.func('verif_c09.' + path), args, {}, st=sc.st)
    r.engine(sc.E)
    if not outs:
        r.undecided(name, 'no outcome')
    for kind, s, x in outs:
        r.count('paths')
        if s.taint:
            r.undecided(name, 'path depends on unknown')
            continue
        if kind == 'raise':
            if good and not x.implicit:
                r.viol('rejects:%s' % path, '%s: raises %s for a valid entry (path: %s)' % (
                    name, x.name, facts_text(s)), x.site)
            if content(s, sc.D) != before:
                r.viol('partial:%s' % path, '%s: raises %s after the dict was changed to %s' % (
                    name, x.name, show(s.get(sc.D).ents)), x.site)
            continue
        stored(r, name, s, s.get(sc.D), k, v, good, np_, mod)


def entry(o, k):
    """-> (found, value) or None when not decidable"""
    for e in reversed(o.ents):
        if e[0] != 'one':
            return None
        if e[1] == k:
            return True, e[2]
    return False, None


def stored(r, name, s, o, k, v, good, np_, mod):
    e = entry(o, k)
    if e is None:
        return r.undecided(name, 'content %s' % show(o.ents))
    found, x = e
    if not good:
        if found:
            what = ''
            if np_:
                a = s.get(x) if isinstance(x, Ref) else None
                what = ' (stored %s)' % (show(x) if a is None else 'array of rank %s' % (a.ndim,) if a.kind == 'array' else a.kind)
            return r.viol('accepts', '%s: is stored without an error%s' % (name, what), mod)
        if len(o.ents) == 0 and o.base in (NEW, None):
            return r.viol('ignored', '%s: neither stored nor rejected' % name, mod)
        return r.undecided(name, 'content %s' % show(o.ents))
    if not found:
        if not o.ents:
            return r.viol('lost', '%s: a valid entry is not stored' % name, mod)
        return r.undecided(name, 'content %s' % show(o.ents))
    if isinstance(v, Ref):
        if x != v:
            return r.viol('copy', '%s: the given array is not the one stored' % name, mod)
    elif np_:
        if not (isinstance(x, Ref) and s.get(x).kind == 'array'):
            if isinstance(x, (Sym, K)):
                return r.viol('raw', '%s: the value is stored without conversion' % name, mod)
            return r.undecided(name, 'stored %s' % show(x))
    elif x != v:
        return r.undecided(name, 'stored %s' % show(x))
