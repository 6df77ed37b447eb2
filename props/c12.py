RULE = """Effect and alias analysis: every masking and querying operation of the pack (calls with every part/nof setting,
records consumed to the end, name, parts, repr, startstop, duration, mask_reset, mask and mindur assignment) is interpreted
from packs with symbolic columns, in sequences of up to three, also with a data column assigned to the mask or given as a
trigger.  No write event (element store, in-place operator, mutating method, out= argument, also through a view) may reach
a stored column, the data or names dict or an array the caller gave, and data and names hold the same objects after."""
TECHNIQUE = 'effect and alias analysis by abstract interpretation with write observers over operation sequences'
from .common import *       # noqa
from .scen import PackScene
from .c11 import make, WRITES


def carr(st, name, dk='b'):
    return M.new_array(st, T('at', Sym(name, 'ndarray'), K(0)), T('len', Sym('p', 'ndarray')), dk, name)


class Watch(object):
    def __init__(self, sc):
        self.sc = sc
        self.targets, self.hits = {}, []
        self.label = ''

    def __call__(self, kind, st, info):
        if kind not in WRITES or st.taint:
            return
        if kind == 'setattr':
            if info.get('obj') == self.sc.pack and info.get('name') in ('data', 'names'):
                self.hits.append((self.label, 'attribute ' + info['name'], kind, where_of(info)))
            return
        for f in ('obj', 'list', 'arr'):
            v = info.get(f)
            if isinstance(v, Ref) and v in self.targets:
                self.hits.append((self.label, self.targets[v], kind, where_of(info)))


def consume(sc, outs):
    """run a returned generator to its end"""
    res = []
    for kind, s, v in outs:
        if kind == 'return' and isinstance(v, Ref) and s.get(v).kind == 'gen':
            E = sc.E
            E.sinks.append([])
            try:
                for s2, _ in E.call(Ext('builtins.list'), [v], {}, s):
                    res.append(('return', s2, NONE))
            finally:
                sink = E.sinks.pop()
            res += [('raise', s2, e) for s2, e in sink]
        else:
            res.append((kind, s, v))
    return res


def ops(sc, st):
    """name -> callable(state) giving outcomes"""
    c1, c2 = sc.cols['p', 1], sc.cols['p', 2]
    A, B, m1 = sc.A, sc.B, sc.m1
    out = {}

    def c(name, meth, *args, **kw):
        out[name] = lambda s: consume(sc, sc.call(meth, list(args), kw, s))

    def a(name, attr, v):
        out[name] = lambda s: sc.assign(attr, v, s)
    for nof in (None, 'nan', 'filter', 'ignore'):
        kw = {} if nof is None else {'nof': K(nof)}
        c('pack(1%s)' % (', nof=%r' % nof if nof else ''), '__call__', K(1), **kw)
        c('records(%s)' % ('nof=%r' % nof if nof else ''), 'records', **kw)
    c('pack(name)', '__call__', Sym('ref', 'str'))
    c('pack(1, part=k)', '__call__', K(1), part=Sym('k', 'int'))
    c('records(part=k, fallback=True)', 'records', part=Sym('k', 'int'), fallback=TRUE)
    c('name(1)', 'name', K(1))
    c('name(ref)', 'name', Sym('ref', 'str'))
    c('name(1, firstwordonly=True)', 'name', K(1), firstwordonly=TRUE)
    c('name(1, firstwordonly=rx)', 'name', K(1), firstwordonly=Sym('rx', 'str'))
    c('name(1, fallback=True)', 'name', K(1), fallback=TRUE)
    c('name(2, fallback=True)', 'name', K(2), fallback=TRUE)
    c('name(2)', 'name', K(2))
    c('records(fallback=True)', 'records', fallback=TRUE)
    c('parts()', 'parts')
    c('repr', '__repr__')
    for ap in (TRUE, FALSE):
        c('startstop(A, B, %s)' % ap, 'startstop', A, B, apply=ap)
        c('startstop(data[1], data[2], %s)' % ap, 'startstop', c1, c2, apply=ap)
    c('duration(d, rate)', 'duration', Sym('d', 'num'), Sym('rate', 'num'))
    c('duration(d, rate, False)', 'duration', Sym('d', 'num'), Sym('rate', 'num'), FALSE)
    c('mask_reset()', 'mask_reset')
    a('mask = array', 'mask', m1)
    a('mask = data[1]', 'mask', c1)
    a('mask = data[1][:]', 'mask', sc.view)
    a('mindur = n', 'mindur', Sym('n2', 'int'))
    a('mindur = None', 'mindur', NONE)
    for nof in ('nan', 'filter', None):
        a('nof = %r' % nof, 'nof', K(nof))
    return out


FIRST = ['', 'mask = array', 'mask = data[1]', 'mask = data[1][:]', 'mindur = n', 'startstop(data[1], data[2], True)',
         "nof = 'nan'", "nof = 'filter'", 'mask_reset()']


def scene(P, dk, names=(1, 2)):
    sc = make(P, (1, 2), names, (), ())
    st = sc.st
    for k in (1, 2):
        st.mut(sc.cols['p', k]).dk = dk
    sc.A, sc.B, sc.m1 = carr(st, 'A'), carr(st, 'B'), carr(st, 'm1')
    c1 = st.get(sc.cols['p', 1])
    sc.view = M.new_array(st, c1.elem, c1.length, c1.dk, 'view of data[1]', sc.cols['p', 1])
    st.ghost['$roots'] = Tup([sc.pack, sc.other, sc.A, sc.B, sc.m1, sc.view] + list(sc.cols.values()))
    return sc


def refs(st, sc):
    """identity of what data and names hold"""
    out = []
    for n in ('data', 'names'):
        v = st.get(sc.pack).attrs.get(n)
        o = st.get(v)
        d = st.get(o.d)
        out.append((n, v, o.d, d.ents, d.base))
    return out


def check(P, r):
    for m in ('__call__', 'records', 'name', 'parts', '__repr__', 'startstop', 'duration', 'mask_reset'):
        P.func(PACK + '.' + m)
    thorough = getattr(r, 'tier', 'quick') == 'thorough'
    for dk in ('b', 'i', 'O') if thorough else ('b', 'O'):
        for first in FIRST:
            name = '%s; any operation (columns of kind %s)' % (first or '(fresh pack)', dk)
            with r.obligation(name):
                seq(P, r, name, first, dk, thorough)
    for names in ((), (1, 4), (2,)):
        name = 'any operation with names of %s' % (names,)
        with r.obligation(name):
            seq(P, r, name, '', 'O', thorough, names)
    for dk in 'iufcmMSUV':
        name = 'any operation on columns of kind %s' % dk
        with r.obligation(name):
            seq(P, r, name, '', dk, False)
    for fn, n in (('slicelist', 1), ('startstop_bool', 2), ('masked', 2)):
        for dk in 'biufcmMOSUV':
            name = 'datautils.%s on arrays of kind %s' % (fn, dk)
            with r.obligation(name):
                helper(P, r, name, fn, n, dk)


def helper(P, r, name, fn, n, dk):
    fi = P.func('channelpack.datautils.' + fn)
    sc = PackScene(P, slices=False, mask=False)
    st = sc.st = sc.st.copy()
    w = Watch(sc)
    sc.user_obs.append(w)
    w.label = name
    args = [carr(st, 'ab'[i], dk if i == 0 or fn != 'masked' else 'b') for i in range(n)]
    for i, x in enumerate(args):
        w.targets[x] = 'its argument %d' % (i + 1)
    st.ghost['$roots'] = Tup([sc.pack] + args)
    outs = consume(sc, sc.E.run(fi, args, {}, st=st))
    r.engine(sc.E)
    r.count('paths', len(outs))
    if not outs:
        r.undecided(name, 'no outcome')
    for label, what, kind, where in w.hits[:6]:
        r.viol('write', '%s: writes %s (%s)' % (label, what, kind), where)


def seq(P, r, name, first, dk, thorough, names=(1, 2)):
    sc = scene(P, dk, names)
    w = Watch(sc)
    sc.user_obs.append(w)
    st = sc.st
    before = refs(st, sc)
    for ref, n in ((sc.A, 'the start array'), (sc.B, 'the stop array'), (sc.m1, 'the array assigned to mask'),
                   (sc.cols['p', 1], 'data[1]'), (sc.cols['p', 2], 'data[2]'), (sc.view, 'the array assigned to mask')):
        w.targets[ref] = n
    for n, v, d, _e, _b in before:
        w.targets[v] = w.targets[d] = 'the %s dict' % n
    O = ops(sc, st)
    starts = [st]
    if first:
        w.label = first
        starts = run(r, sc, name, O[first], [st], before, first)
    if first in ('mask = data[1]', 'mindur = n') and (thorough or dk == 'b'):
        # a third operation
        mids = {}
        for mid in ('mindur = n', 'startstop(A, B, True)', 'mask = data[1]', "nof = 'nan'"):
            w.label = first + '; ' + mid
            mids[mid] = run(r, sc, name, O[mid], starts, before, w.label)
    else:
        mids = {'': starts}
    for mid, sts in mids.items():
        for op in O:
            w.label = '; '.join(x for x in (first, mid, op) if x)
            run(r, sc, name, O[op], sts[:4], before, w.label)
    for label, what, kind, where in w.hits[:6]:
        r.viol('write', '%s: writes %s (%s)' % (label, what, kind), where)
    r.engine(sc.E)


def run(r, sc, name, op, starts, before, label):
    nxt = []
    for s0 in starts:
        outs = op(s0.copy())
        if not outs:
            r.undecided(name, '%s: no outcome' % label)
        for kind, s, v in outs:
            r.count('paths')
            if s.taint:
                continue
            if refs(s, sc) != before:
                r.viol('changed', '%s: the data or names dict holds something else afterwards' % label, name)
            if kind == 'return':
                nxt.append(s)
    return nxt
