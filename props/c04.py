RULE = """slicelist is interpreted abstractly in product with a run automaton: each iteration over the boolean input is
split on the truth of its element; the automaton names the first index of the run under way and queues runs that
ended.  Every slice appended (or yielded) must be, in order, exactly (first index, index after the last) of a queued
run; runs may not be left out or repeated, and at return the run reaching the end of the input must have been emitted
with the input length as its stop; the empty input gives no slices."""
from .common import *       # noqa
from pyflow.interp import target_names

FN = 'channelpack.datautils.slicelist'
RS, PS, PE, GONE = (Sym(n, 'int') for n in ('runstart', 'prevstart', 'prevstop', 'older'))


def ren(v, m):
    """Rename positions, not the elements at positions."""
    if isinstance(v, (It, Sym)) or (isinstance(v, T) and v.op == 'lin' and all(
            isinstance(t, (It, Sym)) or (isinstance(t, T) and t.op == 'len') for t, _ in v.args[0])):
        return subst(v, m)
    if isinstance(v, Tup):
        return Tup([ren(x, m) for x in v.items])
    if isinstance(v, T) and v.op == 'slice':
        return T('slice', *[ren(x, m) for x in v.args])
    return v


class Product(object):
    def __init__(self, P):
        self.P = P
        self.B = Sym('b', 'ndarray')
        self.el = T('at', self.B, K(0))
        self.N = T('len', self.B)
        self.checked = self.iters = 0
        self.E = Engine(P, [self.obs])
        self.E.loop_split = self.split
        self.E.no_induct = {RS, PS, PE, GONE}

    def over_b(self, src):
        return src is not None and any(x == self.el or x == self.N for x in walk(src))

    def split(self, st, info):
        return (T('item', self.el, info['it']),) if self.over_b(info['src']) else ()

    def obs(self, kind, st, info):
        g, E = st.ghost, self.E
        if kind == 'iter_begin':
            if not self.over_b(info['src']):
                g['lost'] = K('another loop at %s' % where_of(info))
                return
            self.iters += 1
            if 'run' not in g:
                g['run'] = FALSE
                g['loop'] = K(info['loop'])
                g['Qy'] = Tup(())
                for i, o in st.heap.items():
                    if isinstance(o, ListObj) and o.kind == 'list':
                        g['Q%d' % i] = Tup(())
                        if o.segs:
                            g['X%d' % i] = Tup([K('und'), K('list not empty before the loop'), K('')])
            if g.get('loop') != K(info['loop']):
                g['lost'] = K('a second loop over the input')
            self.known(st, info['it'])
        elif kind == 'listwrite' and 'run' in g:
            k = 'new%d' % info['list'].id
            if g.get('out'):
                pass
            elif info['how'] == 'append':
                g[k] = Tup(g.get(k, Tup(())).items + (Tup([info['value'], K(where_of(info))]),))
            else:
                g['X%d' % info['list'].id] = Tup([K('und'), K('list.%s' % info['how']), K('')])
        elif kind == 'itemstore':
            for k in list(g):
                if k.startswith('Q'):
                    g['X' + k[1:]] = Tup([K('und'), K('item assignment'), K('')])
        elif kind == 'yield':
            if 'run' in g and not g.get('out'):
                g['newy'] = Tup(g.get('newy', Tup(())).items + (Tup([info['value'], K(where_of(info))]),))
            else:
                g['posty'] = Tup(g.get('posty', Tup(())).items + (Tup([info['value'], K(where_of(info))]),))
        elif kind == 'backedge' and g.get('loop') == K(info['loop']):
            self.advance(st, info)
        elif kind == 'loop_exit' and g.get('loop') == K(info['loop']):
            g['out'] = TRUE
            if g.get('run') == TRUE:
                E.assume(E.cmp('<', RS, self.N, st), True, st)

    def known(self, st, it):
        E, g = self.E, st.ghost
        if g['run'] == TRUE:
            E.assume(E.cmp('<', RS, it, st), True, st)
            E.assume(E.cmp('>=', RS, K(0), st), True, st)

    def advance(self, st, info):
        E, g, it = self.E, st.ghost, info['it']
        e = E.truth(T('item', self.el, it), st)
        fresh = ended = False
        if e is None:
            g['lost'] = K('element not decided')
            return
        if e and g['run'] == FALSE:
            g['run'] = TRUE
            fresh = True
        elif not e and g['run'] == TRUE:
            g['run'] = FALSE
            ended = True
        for k in [k for k in g if k.startswith('Q')]:
            if ended:
                g[k] = Tup(g[k].items + (Tup([RS, it]),))
            for v in g.pop('new' + k[1:], Tup(())).items:
                if 'X' + k[1:] not in g:
                    self.take(st, k, v.items[0], v.items[1].v)
            if len(g[k].items) > 1 and 'X' + k[1:] not in g:
                g['X' + k[1:]] = Tup([K('bad'), K('a run of true elements is left out'), K(where_of(info))])
            if 'X' + k[1:] in g:
                g[k] = Tup(())
        for k in [k for k in g if k.startswith('new')]:
            del g[k]
        if fresh or ended:
            self.rename(st, info, it, {it: RS} if fresh else {it: PE, RS: PS, PS: GONE, PE: GONE})

    def rename(self, st, info, it, m):
        """Give the current index its name wherever it was saved."""
        nxt = {it: lin_add(it, K(1))}
        pre, node = info['head'], info['node']
        tnames = target_names(node.target) if hasattr(node, 'target') else ()
        for f in st.stack:
            fr, pf = st.heap[f], pre.heap.get(f)
            for n, v in list(fr.vars.items()):
                if not any(x in m for x in walk(v)) or (f == st.stack[-1] and n in tnames):
                    continue
                pv = pf.vars.get(n) if pf is not None else None
                if pv is not None and pv != v and any(x == it for x in walk(pv)) and subst(pv, nxt) == v:
                    continue        # induction variable
                st.mut(f).vars[n] = ren(v, m)
        for k, v in list(st.ghost.items()):
            if k.startswith('Q'):
                st.ghost[k] = subst(v, m)
        for i, o in list(st.heap.items()):
            if isinstance(o, ListObj) and any(x[0] == 'one' and any(y in m for y in walk(x[1])) for x in o.segs):
                st.mut(i).segs = tuple(('one', ren(x[1], m)) if x[0] == 'one' else x for x in o.segs)
        if it not in m.values():
            for a in list(st.facts):
                if any(x in m and x != it for x in walk(a)):
                    del st.facts[a]

    def take(self, st, k, v, w):
        """Match an emitted value with the first queued run of channel k."""
        g, x = st.ghost, 'X' + k[1:]
        self.checked += 1
        r = self.match(st, v, g[k].items[0] if g[k].items else None)
        if r is None:
            g[k] = Tup(g[k].items[1:])
        else:
            g[x] = Tup([K(r[0]), K(r[1]), K(w)])

    def match(self, st, v, exp):
        E = self.E
        if not (isinstance(v, T) and v.op == 'slice') or has_unk(v) or st.taint:
            return 'und', 'emitted value %s' % show(v)
        a, b, step = v.args
        if exp is None:
            return 'bad', 'a slice %s is produced although no run has ended' % show(v)
        if step not in (NONE, K(1)):
            return 'und', 'step'
        for what, got, want in (('starts', K(0) if a == NONE else a, exp.items[0]), ('stops', b, exp.items[1])):
            if got == want:
                continue
            if got == NONE:
                return 'und', 'no stop'
            d = lin_add(got, want, -1)
            if isinstance(d, K):
                return 'bad', 'a slice %s %+d elements off the run' % (what, d.v)
            lo, los, hi, his = E.lin_interval(d, st)
            if (lo is not None and (lo > 0 or (lo == 0 and los))) or \
                    (hi is not None and (hi < 0 or (hi == 0 and his))):
                return 'bad', 'a slice %s at %s, not at %s' % (what, show(got), show(want))
            names = {RS, PS, PE, GONE}
            if set(walk(got)) & names and set(walk(want)) & names:
                # distinct named positions can differ
                return 'bad', 'a slice %s at %s, not at %s' % (what, show(got), show(want))
            return 'und', '%s at %s, expected %s' % (what, show(got), show(want))
        return None

    def run(self, fi, r, name):
        E = self.E
        st = E.new_state()
        a = M.new_array(st, self.el, self.N, 'b', 'b')
        outs = E.run(fi, [a], {}, st=st)
        r.engine(E)
        und, bad = [], []
        for kind, s, v in outs:
            g = s.ghost
            if s.taint or 'lost' in g:
                und.append('%s' % (g.get('lost') or 'unknown condition'))
                continue
            if kind == 'raise':
                if not v.implicit:
                    bad.append(('raise', 'raises %s' % v, v.site))
                continue
            if 'run' not in g and not E.truth(E.cmp('==', self.N, K(0), s), s):
                und.append('input not iterated')
                continue
            if fi.is_gen:
                chan, post = 'y', [(x.items[0], x.items[1].v) for x in g.get('posty', Tup(())).items]
            elif isinstance(v, Ref) and isinstance(s.get(v), ListObj):
                chan = '%d' % v.id
                segs = s.get(v).segs
                post = []
                while segs and segs[-1][0] == 'one':
                    post.insert(0, (segs[-1][1], fi.where))
                    segs = segs[:-1]
                if any(x[0] not in ('seq', 'loopseg', 'loop') for x in segs) or len(segs) > 1:
                    und.append('result list %s' % show(segs))
                    continue
            else:
                und.append('result %s' % show(v))
                continue
            if 'run' not in g:      # empty input
                if post:
                    bad.append(('empty', 'the empty input gives slices', fi.where))
                continue
            if not g.get('out') :
                und.append('left the loop early')
                continue
            if 'Q' + chan not in g:
                und.append('result list made after the loop')
                continue
            if 'X' + chan in g:
                x = g['X' + chan].items
                (bad if x[0].v == 'bad' else und).append(('loop', x[1].v, x[2].v) if x[0].v == 'bad' else x[1].v)
                continue
            queue = list(g['Q' + chan].items)
            if g['run'] == TRUE:
                queue.append(Tup([RS, self.N]))
            fail = False
            for val, w in post:
                self.checked += 1
                res = self.match(s, val, queue.pop(0) if queue else None)
                if res:
                    fail = True
                    (bad if res[0] == 'bad' else und).append(('end', res[1], w) if res[0] == 'bad' else res[1])
                    break
            if not fail and queue:
                bad.append(('end', 'a run of true elements is left out at the end of the input (%s)' % facts_text(s),
                            fi.where))
        return bad, und


def check(P, r):
    fi = P.func(FN)
    with r.obligation('maximal runs'):
        pr = Product(P)
        bad, und = pr.run(fi, r, FN)
        for k, msg, w in bad:
            r.viol('runs:' + k, '%s: %s' % (FN, msg), w)
        if not bad and (und or not pr.iters):
            r.undecided('maximal runs', '; '.join(sorted(set(map(str, und)))[:4]) or 'input not iterated')
        r.count('slices_checked', pr.checked)
        r.count('iteration_heads', pr.iters)
