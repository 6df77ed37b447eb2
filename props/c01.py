RULE = """A pack with arbitrary data, names, mask and mindur (None or any integer) is built symbolically through its own
constructor and attribute assignments.  Every mask-changing public operation, and every ordered pair of them with and
without a parts() query between, is interpreted abstractly on all paths; afterwards parts() and pack(ch, part=k) are
interpreted.  The list of True sections is an uninterpreted function slices(content of the mask); every use of it in
the results must be slices(mask content at that moment), part k its k-th element, and parts() the numbers
0..len(slices)-1."""
TECHNIQUE = 'abstract interpretation of operation sequences with versioned mask contents (dataflow freshness)'
from .common import *       # noqa
from .scen import PackScene, OPS

SKIP2 = ('names = dict', 'nof = filter', 'fn = name')


def raw_slices(v, out, guarded=False):
    """slices() terms used as they are (not filtered by a guarded comprehension)."""
    if isinstance(v, T) and v.op == 'slices':
        out.append((v, guarded))
    if isinstance(v, Comp):
        g = guarded or bool(v.guards)
        for s, _ in v.src:
            raw_slices(s, out, g)
        for x in list(v.guards) + [v.elem]:
            raw_slices(x, out, g)
        return
    if isinstance(v, T) and v.op == 'listval':
        for seg in v.args[0]:
            for x in seg[1:]:
                if isinstance(x, V):
                    raw_slices(x, out, True)
        return
    from pyflow.values import children
    for c in children(v):
        raw_slices(c, out, guarded)


def unsure(v):
    return v is None or has_unk(v)


def outcomes(sc, outs):
    """Returning states joined when they differ in path facts only."""
    keep, sc.E.keep_apart = sc.E.keep_apart, 1
    try:
        res = []
        for kind in ('return', 'raise'):
            m = sc.E.merge([s for k, s, v in outs if k == kind])
            res += [(kind, s, NONE) for s in m]
        return res
    finally:
        sc.E.keep_apart = keep


def judge(sc, st, hist, r, name, seen):
    E = sc.E
    m, ma = sc.mask_of(st)
    if ma is None or ma.kind != 'array':
        return r.undecided(name, 'mask not an array after %s' % hist)
    if unsure(ma.elem) or st.taint:
        return r.undecided(name, 'mask content unknown after %s' % hist)
    cur = T('slices', ma.elem, ma.length)
    where = sc.P.func(PACK + '.parts').where

    def stale(v, what):
        out = []
        raw_slices(v, out)
        for s, g in out:
            if s != cur and not unsure(s):
                if g:
                    r.undecided(name, 'filtered section table after %s' % hist)
                    return True
                r.viol('stale:%s' % what, 'after %s, %s uses the sections of an earlier mask (%s) instead of the current '
                       'one (%s)' % (hist, what, show(s.args[0], 90), show(ma.elem, 90)), where)
                return True
            if unsure(s):
                r.undecided(name, 'unknown section table')
                return True
        return False

    for kind, s, v in sc.call('parts', [], st=st.copy()):
        seen['q'] += 1
        if s.taint:
            r.undecided(name, 'parts: path depends on unknown')
            continue
        if kind == 'raise':
            if not v.implicit:
                r.viol('raise:parts', 'after %s, parts() raises %s' % (hist, v), v.site)
            continue
        sv = E.seqval(v, s)
        fv = E.freeze_deep(sv, s)
        if stale(fv, 'parts()'):
            continue
        L = E.length(fv, s)
        want = K(0) if ma.length == K(0) else T('len', cur)
        if L != want:
            ok = E.truth(E.cmp('==', L, want, s), s)
            if ok is True:
                pass
            elif not unsure(L) and isinstance(L, (K, T)) and (L.op == 'lin' if isinstance(L, T) else True) \
                    and ok is False:
                r.viol('parts:length', 'after %s, parts() has %s elements, expected %s' % (hist, show(L), show(want)),
                       where)
                continue
            elif isinstance(L, K) or (isinstance(L, T) and L.op == 'lin' and all(
                    t == want for t, _ in L.args[0])):
                r.viol('parts:length', 'after %s, parts() has %s elements, expected %s' % (hist, show(L), show(want)),
                       where)
                continue
            else:
                r.undecided(name, 'length of parts: %s' % show(L))
                continue
        if want != K(0):
            i = It('q')
            e = E.elem_at(fv, i, s.copy())
            if e != i:
                if isinstance(e, T) and e.op == 'lin' and all(t == i for t, _ in e.args[0]):
                    r.viol('parts:values', 'element i of parts() is %s' % show(e), where)
                else:
                    r.undecided(name, 'element of parts: %s' % show(e))

    ch, part = Sym('ch', 'int'), Sym('part', 'int')
    for kind, s, v in sc.call('__call__', [ch], {'part': part}, st=st.copy()):
        seen['q'] += 1
        if s.taint:
            r.undecided(name, 'call: path depends on unknown')
            continue
        if kind == 'raise':
            continue
        where2 = sc.P.func(PACK + '.__call__').where
        el = s.get(v).elem if isinstance(v, Ref) and s.get(v).kind == 'array' else E.freeze_deep(v, s)
        if stale(el, 'pack(ch, part=k)'):
            continue
        if isinstance(el, T) and el.op in ('sub', 'item') and len(el.args) == 2:
            k = el.args[1]
            if k == T('item', cur, part):
                continue
            if isinstance(k, T) and k.op == 'item' and k.args[0] == cur and not unsure(k.args[1]):
                r.viol('call:index', 'pack(ch, part=k) takes section number %s' % show(k.args[1]), where2)
                continue
        if ma.length == K(0):
            continue
        r.undecided(name, 'selected part: %s' % show(el))


def check(P, r):
    seen = dict(q=0)
    for md in (NONE, Sym('n', 'int')):
        tag = 'mindur None' if md == NONE else 'mindur n'
        for ne in (True, None):
            with r.obligation('scene %s' % tag):
                sc = PackScene(P, other=True, nonempty=ne)
                starts = [s for s0 in sc.starts for k, s, v in sc.assign('mindur', md, s0.copy()) if k == 'return']
            if ne is None and r.tier != 'thorough':
                continue
            for o1, f1 in OPS.items():
                name = '%s; %s%s' % (tag, o1, '' if ne else ' (data possibly empty)')
                with r.obligation(name):
                    mids = []
                    for st in starts:
                        for kind, s, v in outcomes(sc, f1(sc, st.copy())):
                            judge(sc, s, '%s (%s%s)' % (o1, tag, ', raising' if kind == 'raise' else ''), r, name, seen)
                            mids.append((kind, s))
                if ne is None or o1 in SKIP2:
                    continue
                for o2, f2 in OPS.items():
                    if o2 in SKIP2:
                        continue
                    name = '%s; %s; %s' % (tag, o1, o2)
                    with r.obligation(name):
                        for kind, s in mids:
                            if kind == 'raise' and r.tier != 'thorough':
                                continue
                            for q in (True, False):
                                bases = [s.copy()]
                                if q:
                                    bases = [s2 for k2, s2, v2 in sc.call('parts', [], st=s.copy()) if k2 == 'return']
                                elif r.tier != 'thorough':
                                    continue
                                for b in bases:
                                    for k3, s3, v3 in outcomes(sc, f2(sc, b)):
                                        judge(sc, s3, '%s; parts(); %s (%s)' % (o1, o2, tag), r, name, seen)
            r.engine(sc.E)
    r.count('queries', seen['q'])
