RULE = """pack(ch, part, nof) is interpreted abstractly for a pack with arbitrary data and mask, for every combination of
the nof attribute (None, 'nan', 'filter'), the nof argument (absent, 'nan', 'filter', 'ignore') and part (absent, 0, any
integer), on all paths.  The returned array is compared elementwise with the specification of the documented precedence:
stored array itself, ite(mask, stored, missing), compress(stored, mask) or stored[sections(mask)[part]]; a part outside
the list of sections must end in IndexError."""
TECHNIQUE = 'abstract interpretation over a complete table of settings; symbolic array contents compared with the specification'
from .common import *       # noqa
from .scen import PackScene, empty_sections

NANS = (M.NAN, NONE)


def describe(sc, s, v, key):
    """-> (class, text) of a returned value"""
    E = sc.E
    base = Sym('p.data', 'dict')
    stored = T('at', T('item', base, key), K(0))
    if not isinstance(v, Ref) or s.get(v).kind != 'array':
        if isinstance(v, K):
            return 'other', show(v)
        return None, show(v)
    a = s.get(v)
    me = sc.mask_elem
    cur = T('slices', me, sc.mask_len)
    d = s.get(s.get(s.get(sc.pack).attrs['data']).d)
    if d.lazy.get(key) == v or any(e[0] == 'one' and e[1] == key and e[2] == v for e in d.ents):
        return 'stored', show(a.elem)
    e = a.elem
    if e == stored and a.length == T('len', T('item', base, key)):
        return 'copy', 'a copy of the stored array'
    if isinstance(e, T) and e.op == 'ite' and e.args[0] == me and e.args[1] == stored and e.args[2] in NANS:
        return 'nan', show(e)
    if e == T('compress', stored, me):
        return 'filter', show(e)
    if isinstance(e, T) and e.op == 'sub' and e.args[0] == stored and isinstance(e.args[1], T) and \
            e.args[1].op == 'item' and e.args[1].args[0] == cur:
        return ('part', e.args[1].args[1]), show(e)
    if within(e) or (isinstance(e, T) and e.op == 'at' and isinstance(e.args[0], Tup)):
        return 'other', show(e)
    if isinstance(e, T) and e.op == 'cast' and within(e.args[0]):
        return 'other', show(e)
    return None, show(e)


def check(P, r):
    sc = PackScene(P)
    E = sc.E
    ch, part = Sym('ch', 'int'), Sym('part', 'int')
    base = Sym('p.data', 'dict')
    where = P.func(PACK + '.__call__').where
    for attr in (NONE, K('nan'), K('filter')):
        for nof in (None, K('nan'), K('filter'), K('ignore'), NONE):
            for pt in (None, NONE, K(0), part):
                name = 'nof attribute %s, nof argument %s, part %s' % (attr, 'absent' if nof is None else nof,
                                                                       'absent' if pt is None else pt)
                want = ('part', pt) if pt not in (None, NONE) else \
                    {'nan': 'nan', 'filter': 'filter', 'ignore': 'stored'}.get(
                        nof.v if nof is not None else None) or \
                    {None: 'stored', 'nan': 'nan', 'filter': 'filter'}[attr.v]
                kw = {}
                if nof is not None:
                    kw['nof'] = nof
                if pt is not None:
                    kw['part'] = pt
                with r.obligation(name):
                    for st0 in sc.starts:
                        for k, s, v in sc.assign('nof', attr, st0.copy()):
                            if k == 'raise':
                                r.viol('attr', 'nof = %s raises %s' % (attr, v), v.site)
                                continue
                            s.facts[T('in', ch, base)] = True
                            for kind, s2, v2 in sc.call('__call__', [ch], kw, s):
                                judge(sc, r, name, want, kind, s2, v2, ch, where)
    r.engine(E)


def judge(sc, r, name, want, kind, s, v, key, where):
    if s.taint:
        return r.undecided(name, 'path depends on unknown')
    cur = T('slices', sc.mask_elem, sc.mask_len)
    if kind == 'raise':
        if isinstance(want, tuple):
            if v.name == 'IndexError':
                return
            if not v.implicit:
                r.viol('raise', '%s: raises %s instead of IndexError' % (name, v.name), v.site)
            return
        if not v.implicit:
            r.viol('raise', '%s: raises %s (path: %s)' % (name, v.name, facts_text(s)), v.site)
        return
    got, text = describe(sc, s, v, key)
    if got == want:
        return
    if isinstance(want, tuple) and got is None and empty_sections(s, cur):
        return r.viol('nosection', '%s: returns %s although there is no such section; IndexError expected (path: %s)' %
                      (name, text, facts_text(s)), where)
    if got is None:
        return r.undecided(name, 'returned %s; %s' % (text, facts_text(s)))
    r.viol('selection:%s:%s' % (want if isinstance(want, str) else 'part', got if isinstance(got, str) else 'part'),
           '%s: returns %s (%s), expected %s' % (name, got, text, want), where)
