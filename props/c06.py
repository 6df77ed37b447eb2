RULE = """datautils.masked and pack(ch, nof='nan') (with the argument and with the attribute) are interpreted abstractly
for data of every numpy dtype kind and an arbitrary boolean mask.  Element i of the result must be the stored element
where the mask is True, and where it is False nan for the kinds i, u, f, c and None for all others; the result has the
length of the data; no path writes to the data array."""
TECHNIQUE = 'abstract interpretation per dtype kind; symbolic array contents compared with the specification'
from .common import *       # noqa
from .scen import PackScene

KINDS = 'iufcbOSUmMV'


def judge(r, name, s, v, E, stored, length, me, ml, kind, where):
    if s.taint:
        return r.undecided(name, 'path depends on unknown')
    if not isinstance(v, Ref) or s.get(v).kind != 'array':
        if isinstance(v, K):
            return r.viol('value', '%s: returns %s' % (name, v), where)
        return r.undecided(name, 'returns %s' % show(v))
    a = s.get(v)
    want = M.NAN if kind in 'iufc' else NONE
    e = a.elem
    for mv, w, what in ((TRUE, stored, 'selected'), (FALSE, want, 'unselected')):
        if s.facts.get(T('truthy', T('arrall' if mv == FALSE else 'arrany', me))) is (mv == FALSE):
            continue            # no such elements on this path
        x = assume_mask(e, me, mv)
        if x == w:
            continue
        if any(y == me for y in walk(x)) or not (x in (M.NAN, NONE, stored) or isinstance(x, K) or (
                isinstance(x, T) and x.op == 'cast' and x.args[0] in (stored, M.NAN, NONE))
                or (isinstance(x, T) and x.op in ('nan', 'nat')) or within(x)):
            r.undecided(name, '%s element %s' % (what, show(x)))
            continue
        if isinstance(x, T) and x.op == 'cast' and x.args[1] == K('?'):
            r.undecided(name, '%s element %s' % (what, show(x)))
            continue
        if isinstance(x, T) and x.op == 'cast' and x.args[0] == stored and kind in 'iuf' and x.args[1].v in 'fc':
            continue
        r.viol('%s:%s' % (what, kind), '%s: the %s elements of data of kind %r become %s, expected %s' % (
            name, what, kind, show(x), show(w)), where)
    if a.length not in (length, ml):
        if within(a.length):
            r.viol('length', '%s: the result has length %s' % (name, show(a.length)), where)
        else:
            r.undecided(name, 'length %s' % show(a.length))


def assume_mask(e, me, val):
    if e == me:
        return val
    if isinstance(e, T) and e.op in ('ite', 'not', 'and', 'or'):
        xs = [assume_mask(x, me, val) for x in e.args]
        if e.op == 'ite':
            return M.ite(*xs)
        if e.op == 'not':
            return M.bool_term('not', xs[0])
        return M.bool_term(e.op, *xs)
    return e


def check(P, r):
    fi = P.func('channelpack.datautils.masked')
    for kind in KINDS:
        name = 'masked, data kind %s' % kind
        with r.obligation(name):
            writes = []
            E = Engine(P, [lambda k, st, info: writes.append((info['arr'], where_of(info), bool(st.taint)))
                           if k == 'arrwrite' else None])
            st = E.new_state()
            A, B = Sym('A', 'ndarray'), Sym('B', 'ndarray')
            ea, eb = T('at', A, K(0)), T('at', B, K(0))
            a = M.new_array(st, ea, T('len', A), kind, 'A')
            b = M.new_array(st, eb, T('len', A), 'b', 'B')
            for k, s, v in E.run(fi, [a, b], {}, st=st):
                if k == 'raise':
                    if not s.taint and not v.implicit:
                        r.viol('raise', '%s raises %s' % (name, v), v.site)
                    continue
                judge(r, name, s, v, E, ea, T('len', A), eb, T('len', A), kind, fi.where)
            for w, wh, t in writes:
                if w in (a, b) and not t:
                    r.viol('write', '%s writes to its argument' % name, wh)
            r.engine(E)
    for kind in KINDS:
        for how in ('argument', 'attribute'):
            name = 'pack call, nof %s, data kind %s' % (how, kind)
            with r.obligation(name):
                sc = PackScene(P, colkind=kind)
                ch = Sym('ch', 'int')
                base = Sym('p.data', 'dict')
                ws = []
                sc.user_obs.append(lambda k, st, info: ws.append((info['arr'], st, where_of(info)))
                                   if k == 'arrwrite' else None)
                for st in sc.starts:
                    sts = [st.copy()]
                    if how == 'attribute':
                        sts = [s for k, s, v in sc.assign('nof', K('nan'), sts[0]) if k == 'return']
                    for s0 in sts:
                        s0.facts[T('in', ch, base)] = True
                        for k, s, v in sc.call('__call__', [ch], {'nof': K('nan')} if how == 'argument' else {}, s0):
                            if k == 'raise':
                                continue
                            judge(r, name, s, v, sc.E, T('at', T('item', base, ch), K(0)), T('len', T('item', base, ch)),
                                  sc.mask_elem, sc.mask_len, kind, P.func(PACK + '.__call__').where)
                for arr, st, wh in ws:
                    d = st.get(st.get(st.get(sc.pack).attrs['data']).d)
                    if not st.taint and arr in list(d.lazy.values()):
                        r.viol('write', '%s writes to the stored array' % name, wh)
                r.engine(sc.E)
