RULE = """startstop_bool is interpreted abstractly in product with a two-state latch automaton: every loop
iteration is split on the truth of startb[i] and stopb[i], and on every path the value yielded must equal
'not stop and (start or latched)', exactly one per iteration, over the shorter of both inputs.  ChannelPack.startstop
is interpreted on a symbolic pack: the result is a boolean array of exactly that generator's values, the mask
afterwards is elementwise (old mask and result) with apply true and untouched otherwise."""
from .common import *       # noqa
from .scen import PackScene, bool_same

GEN = 'channelpack.datautils.startstop_bool'


def check_gen(P, r):
    A, B = Sym('startb'), Sym('stopb')
    fi = P.func(GEN)
    bad, und = [], []
    seen = dict(yields=0, iters=0)

    def atoms(it):
        return T('item', A, it), T('item', B, it)

    def expected(st, it):
        a, b = atoms(it)
        s, p = E.truth(a, st), E.truth(b, st)
        if s is None or p is None:
            return None
        return (not p) and (s or st.ghost['latch'].v)

    def obs(kind, st, info):
        if kind == 'iter_begin':
            src = info['src']
            if src is None:
                und.append('while loop over the inputs')
                st.ghost['cur'] = NONE
                return
            if not any(x in (A, B) for x in walk(src)):
                return
            ln = E.length(src, st)
            if ln == T('min', *sorted([T('len', A), T('len', B)], key=repr)):
                pass
            elif isinstance(src, T) and src.op == 'call' and 'zip_longest' in str(src.args[0]):
                bad.append(('length', 'inputs are iterated with %s, not truncated to the shorter one' % src.args[0],
                            where_of(info)))
            else:
                und.append('length of %s' % show(src))
            st.ghost['cur'] = info['it']
            st.ghost['n'] = K(0)
            seen['iters'] += 1
        elif kind == 'yield':
            seen['yields'] += 1
            it = st.ghost.get('cur', NONE)
            if it == NONE:
                if 'cur' in st.ghost:
                    und.append('yield outside a for loop')
                elif not st.taint:
                    bad.append(('extra', 'yields a value before or after iterating the inputs', where_of(info)))
                return
            st.ghost['n'] = K(st.ghost['n'].v + 1)
            exp = expected(st, it)
            got = E.truth(info['value'], st)
            if exp is None or got is None or st.taint:
                und.append('value %s not decided' % show(info['value']))
                return
            if got != exp:
                a, b = atoms(it)
                bad.append(('latch', 'yields %s where the latch gives %s (start=%s, stop=%s, latched=%s)' % (
                    got, exp, E.truth(a, st), E.truth(b, st), st.ghost['latch']), where_of(info)))
        elif kind == 'iter_end':
            it = st.ghost.get('cur', NONE)
            if it == NONE or it != info['it']:
                return
            if st.ghost['n'] != K(1) and not st.taint:
                bad.append(('count', 'a path of one iteration yields %s values instead of 1' % st.ghost['n'],
                            where_of(info)))
            exp = expected(st, it)
            if exp is not None:
                st.ghost['latch'] = K(bool(exp))
            st.ghost['n'] = K(0)
        elif kind == 'loop_exit':
            st.ghost.pop('cur', None)

    def split(st, info):
        src = info['src']
        if src is not None and any(x in (A, B) for x in walk(src)):
            return atoms(info['it'])
        return ()

    E = Engine(P, [obs])
    E.loop_split = split
    st = E.new_state()
    st.ghost['latch'] = FALSE
    with r.obligation('latch automaton'):
        outs = E.run(fi, [A, B], {}, st=st)
        r.engine(E)
        for kind, s, v in outs:
            if kind == 'raise' and not s.taint and not v.implicit:
                bad.append(('raise', 'raises %s' % v, v.site))
            if 'brk' in str(s.ghost):
                und.append('break')
        for k, msg, w in bad:
            r.viol('latch:' + k, '%s: %s' % (GEN, msg), w)
        if not bad and (und or not seen['yields']):
            r.undecided('latch automaton', '; '.join(sorted(set(und))[:3]) or 'no yields seen')
        r.count('yield_paths', seen['yields'])
        r.count('iteration_heads', seen['iters'])


def is_gen_of(elem, A, B):
    """Does the element expression come from startstop_bool(A, B)?  True/False/None"""
    gens = [x for x in walk(elem) if isinstance(x, T) and x.op == 'gen' and x.args[0] == GEN]
    if len(gens) != 1:
        return None
    b = dict(gens[0].args[1])
    fi_args = list(b.values())
    if b.get('startb') == A and b.get('stopb') == B:
        return True
    if b.get('startb') == B and b.get('stopb') == A:
        return False
    if set(fi_args) <= {A, B} and len(set(fi_args)) == 1:
        return False
    return None


def check_method(P, r):
    A, B = Sym('startb'), Sym('stopb')
    for apply_ in (True, False, None):
        name = 'startstop(apply=%s)' % ('default' if apply_ is None else apply_)
        with r.obligation(name):
            sc = PackScene(P)
            kw = {} if apply_ is None else {'apply': K(apply_)}
            st0 = sc.st.copy()
            m0 = sc.mask_of(st0)[1].elem
            outs = sc.call('startstop', [A, B], kw, st=st0)
            r.engine(sc.E)
            for kind, s, v in outs:
                if s.taint:
                    r.undecided(name, 'path depends on unknown')
                    continue
                if kind == 'raise':
                    if not v.implicit:
                        r.viol(name + ':raise', 'startstop raises %s' % v, v.site)
                    continue
                if not isinstance(v, Ref) or s.get(v).kind != 'array':
                    if v == NONE:
                        r.viol(name + ':result', 'startstop returns None instead of the result', P.func(PACK + '.startstop').where)
                    else:
                        r.undecided(name, 'result %s' % show(v))
                    continue
                ra = s.get(v)
                mref, ma = sc.mask_of(s)
                if mref == v and apply_ is not False:
                    pass
                g = is_gen_of(ra.elem, A, B)
                res = ra.elem
                if g is None:
                    # the result may be something else built from the mask only
                    if bool_same(ra.elem, m0, []) is True:
                        r.viol(name + ':result', 'startstop returns the mask, not its own result',
                               P.func(PACK + '.startstop').where)
                    elif bool_same(ra.elem, K(True), [m0]) is False and not any(
                            isinstance(x, T) and x.op == 'gen' for x in walk(ra.elem)):
                        r.viol(name + ':result', 'startstop returns %s, not the latch result' % show(ra.elem),
                               P.func(PACK + '.startstop').where)
                    else:
                        r.undecided(name, 'result %s' % show(ra.elem))
                    continue
                if g is False:
                    r.viol(name + ':args', 'the latch runs on swapped or repeated arguments: %s' % show(ra.elem),
                           P.func(PACK + '.startstop').where)
                    continue
                gen_atoms = set()
                from .scen import bool_atoms
                bool_atoms(res, gen_atoms)
                if len(gen_atoms) != 1 or res not in gen_atoms:
                    if len(gen_atoms) >= 1 and any(x == m0 for x in gen_atoms):
                        r.viol(name + ':result', 'the returned array is %s, not the latch result itself' % show(res),
                               P.func(PACK + '.startstop').where)
                    else:
                        r.undecided(name, 'result %s' % show(res))
                    continue
                if ra.dk not in ('b',):
                    if ra.dk in ('i', 'f', 'O', 'u'):
                        r.viol(name + ':dtype', 'the result has dtype kind %s, not bool' % ra.dk,
                               P.func(PACK + '.startstop').where)
                    elif ra.dk is None:
                        # numpy infers: empty input gives float
                        r.viol(name + ':dtype', 'the dtype of the result is left to numpy, so an empty result is '
                               'float and not bool', P.func(PACK + '.startstop').where)
                    else:
                        r.undecided(name, 'dtype %s' % ra.dk)
                    continue
                want = T('and', m0, res) if apply_ is not False else m0
                same = bool_same(ma.elem, want, [m0, res])
                if same is False:
                    r.viol(name + ':mask', 'after startstop the mask is %s, expected %s' % (show(ma.elem), show(want)),
                           P.func(PACK + '.startstop').where)
                elif same is None:
                    r.undecided(name, 'mask %s' % show(ma.elem))


def check(P, r):
    check_gen(P, r)
    check_method(P, r)
