RULE = """A pack with arbitrary data and mask and mindur set to an arbitrary integer n is built symbolically.  Each mask
updating operation is interpreted on all paths.  Every loop over the list of True sections is split on 'section shorter
than n' and 'section longer than n'; on every path through an iteration the section is made False exactly when it is
shorter.  At the end of the operation the content of the mask must be what such a loop, run over the sections of the
mask as it then was, left behind - no write may follow it and no path may go round it (unless n is known to be below
2).  With mindur None no section of the mask is written."""
TECHNIQUE = 'abstract interpretation with case split on section length; must-pass-through analysis of the duration filter'
from .common import *       # noqa
from .scen import PackScene, OPS, empty_sections
from .durwatch import DurWatch, start

UPDATES = ['mask = array', 'mask edited in place and assigned', 'data = dict', 'mindur = n', 'startstop(apply=True)',
           'mask_reset()', 'append_pack(other)']


def mindur_of(sc, st):
    return st.get(sc.pack).attrs.get('mindur', NONE)


def verdict(sc, w, s, hist, r, name, req):
    E = sc.E
    m, ma = sc.mask_of(s)
    where = sc.P.func(PACK + '.__setattr__').where
    if s.taint or ma is None or has_unk(ma.elem):
        return r.undecided(name, 'mask content unknown after %s %s %s' % (hist, s.taint[:1], show(ma.elem) if ma else ma))
    if s.ghost.get('stale') == TRUE:
        return r.viol('stale', 'after %s, the filter ran on the sections of an earlier mask' % hist, where)
    if ma.length == K(0):
        return
    if s.ghost.get('odd') == TRUE:
        return r.undecided(name, 'mask written in another way')
    if s.ghost.get('filt') == ma.elem and s.ghost.get('filtreq') == req:
        return
    # no filter after the update: fine only if nothing can be due
    if E.truth(E.cmp('<', req, K(2), s), s) is True or E.truth(req, s) is False:
        return
    if E.truth(E.cmp('==', ma.length, K(0), s), s) is True:
        return
    if empty_sections(s, T('slices', ma.elem, ma.length)):
        return
    if isinstance(ma.elem, T) and ma.elem.op == 'at' and isinstance(ma.elem.args[0], T) and \
            ma.elem.args[0].op == 'array' and not isinstance(ma.elem.args[1].v, int):
        return r.undecided(name, 'mask written in a loop that is not over the sections')
    r.viol('unfiltered', 'after %s, the mask is %s, to which the mindur filter was not applied (path: %s)' % (
        hist, show(ma.elem), facts_text(s)), where)


def check(P, r):
    n = Sym('n', 'int')
    with r.obligation('scene'):
        sc = PackScene(P, other=True)
        w = DurWatch(sc, lambda st: mindur_of(sc, st) if mindur_of(sc, st) != NONE else Sym('any', 'int'))
        starts = []
        for kind, s, v in [x for s0 in sc.starts for x in sc.assign('mindur', n, s0.copy())]:
            if kind == 'raise':
                r.viol('reject', 'setting mindur to an integer raises %s' % v, v.site)
                continue
            if mindur_of(sc, s) != n:
                r.viol('stored', 'after mindur = n the attribute is %s' % show(mindur_of(sc, s)), '')
                continue
            verdict(sc, w, s, 'mindur = n', r, 'scene', n)
            starts.append(s)
        if not starts:
            return
    if 'starts' not in locals():
        return
    starts = sc.E.merge(starts)
    for o in UPDATES:
        name = 'mindur n; ' + o
        with r.obligation(name):
            for st in starts:
                st = st.copy()
                start(st)
                for kind, s, v in OPS[o](sc, st):
                    if kind == 'raise':
                        continue
                    md = mindur_of(sc, s)
                    want = Sym('n2', 'int') if o == 'mindur = n' else n
                    if md != want:
                        if not has_unk(md):
                            r.viol('changed', 'after %s mindur is %s' % (o, show(md)), '')
                        continue
                    verdict(sc, w, s, '%s with mindur = n' % o, r, name, want)
    for k, msg, wh in {(k, m, w_) for k, m, w_ in w.bad}:
        r.viol('filter:' + k, msg, wh)
    for u in sorted(set(w.und))[:3]:
        r.undecided('filter loop', u)
    if not w.bad and not w.und:
        r.ok('filter loop', '%d loops, %d iteration paths' % (w.loops, w.iters))
    r.count('filter_loops', w.loops)
    r.count('iteration_paths', w.iters)
    # mindur None: nothing is falsified
    w.bad[:] = []
    for setup in ('initially', 'after having been set'):
        for o in UPDATES:
            if o == 'mindur = n':
                continue
            name = 'mindur None %s; %s' % (setup, o)
            with r.obligation(name):
                if setup == 'initially':
                    bases = [s0.copy() for s0 in sc.starts]
                else:
                    bases = sc.E.merge([s for st in starts for k, s, v in sc.assign('mindur', NONE, st.copy())
                                        if k == 'return'])
                for st in bases:
                    start(st)
                    n0 = w.writes
                    for kind, s, v in OPS[o](sc, st.copy()):
                        if kind == 'raise' or s.taint:
                            continue
                        if s.ghost.get('filt') is not None and s.ghost.get('filt') == sc.mask_of(s)[1].elem and \
                                str(s.ghost['filt']).find("array(") >= 0 and o != 'mask edited in place and assigned':
                            r.viol('none:filtered', 'with mindur None %s, %s runs the duration filter on the mask' % (
                                setup, o), sc.P.func(PACK + '.__setattr__').where)
    r.engine(sc.E)
