"""Watches loops over the table of True sections and decides which sections
they falsify, by length."""
from .common import *       # noqa


def slices_src(src):
    """slices() term a loop source enumerates one by one -> (term, guards, comp) or None"""
    guards, comp = (), None
    while True:
        if isinstance(src, T) and src.op in ('seqlist', 'seqtuple', 'reversed'):
            src = src.args[0]
        elif isinstance(src, T) and src.op == 'enumerate':
            src = src.args[0]
        elif isinstance(src, T) and src.op == 'range' and src.args[0] == K(0) and src.args[2] == K(1) and \
                isinstance(src.args[1], T) and src.args[1].op == 'len':
            src = src.args[1].args[0]
        elif isinstance(src, Comp) and len(src.src) == 1 and comp is None:
            comp = src
            src = src.src[0][0]
        else:
            break
    if isinstance(src, T) and src.op == 'slices':
        return src, comp
    return None


class DurWatch(object):
    """req(st): required length; longer: falsify longer sections instead."""

    def __init__(self, sc, req, longer=False):
        self.sc, self.E, self.req, self.longer = sc, sc.E, req, longer
        self.bad, self.und = [], []
        self.loops, self.iters, self.writes = 0, 0, 0
        sc.user_obs.append(self.obs)
        self.E.loop_split = self.split

    # the section handled by an iteration
    def section(self, src, it, st):
        r = slices_src(src)
        if r is None:
            return None
        sl, comp = r
        if comp is None:
            if isinstance(src, T) and src.op == 'reversed':
                return T('item', src, it), sl, comp
            return T('item', sl, it), sl, comp
        if isinstance(comp.elem, T) and comp.elem.op == 'item' and comp.elem.args[0] == sl:
            e = self.E.elem_at(comp, it, st.copy())
            return e, sl, comp
        return None

    def conds(self, sec, st):
        E = self.E
        ln = lin_add(T('attr', sec, 'stop'), T('attr', sec, 'start'), -1)
        req = self.req(st)
        return E.cmp('<', ln, req, st), E.cmp('<', req, ln, st)

    def split(self, st, info):
        if info['src'] is None:
            return ()
        r = self.section(info['src'], info['it'], st)
        if r is None:
            return ()
        lt, gt = self.conds(r[0], st)
        return (lt, gt)

    def mask_id(self, st):
        return self.sc.mask_of(st)[0]

    def obs(self, kind, st, info):
        E = self.E
        if kind == 'iter_begin' and info['src'] is not None:
            r = self.section(info['src'], info['it'], st)
            if r is not None:
                st.ghost['sec'] = r[0]
                st.ghost['secsl'] = r[1]
                st.ghost['wrote'] = FALSE
                if st.ghost.get('secloop') != K(info['loop']):
                    st.ghost['secloop'] = K(info['loop'])
                    st.ghost['e0'] = E.elem_of(self.mask_id(st), st)
                    st.ghost['len0'] = E.length(self.mask_id(st), st)
        elif kind == 'arrwrite':
            m = self.mask_id(st)
            if info['arr'] != m:
                return
            self.writes += 1
            sec = st.ghost.get('sec')
            key = info.get('key')
            v = info.get('value')
            if sec is not None and 'through a view' not in str(info.get('how')):
                ok = key == sec or (isinstance(key, T) and key.op == 'slice' and key.args[0] == T('attr', sec, 'start')
                                    and key.args[1] == T('attr', sec, 'stop') and key.args[2] in (NONE, K(1)))
                if ok and v == FALSE:
                    st.ghost['wrote'] = TRUE
                    return
                if ok and v == TRUE:
                    if not st.taint:
                        self.bad.append(('value', 'a True section is written True', where_of(info)))
                    return
                if isinstance(key, T) and key.op == 'item' and isinstance(sec, T) and key.args[0] == sec.args[0] \
                        and not has_unk(key):
                    self.bad.append(('section', 'while handling section %s, section %s is falsified' % (
                        show(sec), show(key)), where_of(info)))
                    return
            if info.get('how') == 'by the caller' or (sec is None and info.get('whole')):
                return
            st.ghost['odd'] = TRUE
        elif kind == 'loop_break' and info['src'] is not None:
            if st.ghost.get('secloop') != K(info['loop']) or 'sec' not in st.ghost:
                return
            sec = st.ghost['sec']
            req = self.req(st)
            last = E.truth(E.cmp('==', lin_add(info['it'], K(1)), info['length'], st), st)
            if st.taint or last is True or E.truth(E.cmp('<', req, K(2), st), st) is True and not self.longer:
                return
            if isinstance(info['src'], T) and info['src'].op == 'slices':
                self.bad.append(('break', 'the loop over the sections ends at %s before the sections that follow were '
                                 'compared with the required length' % show(sec, 60), where_of(info)))
                st.ghost['broke'] = TRUE
            else:
                self.und.append('loop over the sections left early')
        elif kind == 'iter_end' and info['src'] is not None:
            if st.ghost.get('secloop') != K(info['loop']) or 'sec' not in st.ghost:
                return
            self.iters += 1
            lt, gt = self.conds(st.ghost['sec'], st)
            a, b = E.truth(lt, st), E.truth(gt, st)
            if st.taint or a is None or b is None or st.ghost.get('odd') == TRUE:
                self.und.append('length of a section not compared decidably')
            else:
                want = b if self.longer else a
                got = st.ghost['wrote'] == TRUE
                if want != got:
                    rel = 'shorter than' if a else 'longer than' if b else 'exactly'
                    self.bad.append(('length', 'a section %s the required length %s is %s' % (
                        rel, show(self.req(st), 40), 'made False' if got else 'kept True'), where_of(info)))
            st.ghost.pop('sec')
            st.ghost['wrote'] = FALSE
        elif kind == 'loop_exit' and info['src'] is not None:
            r = slices_src(info['src'])
            if r is None:
                return
            sl, comp = r
            e0 = st.ghost.get('e0')
            self.loops += 1
            fresh = None
            if info.get('zero'):
                fresh = True
            elif e0 is not None:
                fresh = sl.args[0] == e0
            if comp is not None and comp.guards:
                self.rest(st, comp, sl, info)
            if fresh is False and not has_unk(sl) and not has_unk(e0):
                st.ghost['stale'] = TRUE
            st.ghost['filt'] = E.elem_of(self.mask_id(st), st)
            st.ghost['filtreq'] = self.req(st)
            for k in ('sec', 'secsl', 'wrote', 'secloop', 'e0', 'len0'):
                st.ghost.pop(k, None)

    def rest(self, st, comp, sl, info):
        """Sections a guarded selection leaves out must not be due."""
        E = self.E
        sec = T('item', sl, Sym('$other', 'int'))
        m = {comp.elem: sec}
        base = st.copy()
        lt, gt = self.conds(sec, base)
        due = gt if self.longer else lt
        if not E.assume(due, True, base):
            return
        gs = [subst(g, m) for g in comp.guards]
        if any(x == It(comp.src[0][1]) for g in gs for x in walk(g)) or any(has_unk(g) for g in gs):
            self.und.append('guard of the selected sections')
            return
        for g in gs:
            s = base.copy()
            if E.assume(g, False, s):
                names = {x for x in walk(g)}
                if any(sec in names for _ in (0,)) and all(isinstance(x, (K, Sym, T)) for x in names):
                    self.bad.append(('length', 'a section that is due may be left out by the selection %s' % show(g),
                                     where_of(info)))
                else:
                    self.und.append('guard %s' % show(g))


def start(st):
    for k in ('filt', 'filtreq', 'stale', 'odd', 'sec', 'wrote', 'secloop', 'e0', 'len0', 'secsl'):
        st.ghost.pop(k, None)
