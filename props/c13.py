RULE = """A pack with arbitrary data and mask is built symbolically.  After each of mask_reset, construction, data
assignment and append_pack (mindur None) the mask must be a boolean array whose every element is the constant True and
whose length is the length of the column with the lowest key of the data dict as it then is, zero when that dict is
empty.  duration(d, samplerate, mindur) is interpreted with the loop over the True sections split on 'shorter than' and
'longer than' int(d*samplerate): on every path of an iteration the section is falsified exactly when due, no other
write to the mask happens, the sections are those of the mask as it was, and the mask itself is returned."""
TECHNIQUE = 'abstract interpretation with case split on section length; symbolic mask content compared with the specification'
from .common import *       # noqa
from .scen import PackScene, OPS, spec, spec_call, new_mask
from .durwatch import DurWatch, start

SPEC = '''
def lowest(p):
    if len(p.data) == 0:
        return 0
    return len(p.data[min(p.data)])

def required(d, rate):
    return int(d * rate)
'''


def check_reset(sc, s, what, r, name, pack=None):
    E = sc.E
    pack = pack or sc.pack
    where = sc.P.func(PACK + '.mask_reset').where
    m = s.get(pack).attrs.get('mask')
    ma = s.get(m) if isinstance(m, Ref) else None
    if s.taint or ma is None or ma.kind != 'array':
        return r.undecided(name, 'mask is not a known array')
    if ma.elem != TRUE and ma.length != K(0):
        if ma.elem in (FALSE,) or (isinstance(ma.elem, K) and not ma.elem.v):
            r.viol('reset:value', 'after %s the mask elements are %s' % (what, ma.elem), where)
        elif isinstance(ma.elem, K) and ma.elem.v:
            pass
        elif not within(ma.elem):
            return r.undecided(name, 'mask content unknown')
        else:
            tv = E.truth(ma.elem, s) if not isinstance(ma.elem, T) or ma.elem.op != 'at' else None
            if tv is not True:
                r.viol('reset:value', 'after %s the mask elements are %s, not True for all data' % (
                    what, show(ma.elem)), where)
    if ma.dk != 'b':
        if ma.dk in ('i', 'f', 'O', 'U', 'c', 'u', 'S'):
            r.viol('reset:dtype', 'after %s the mask has dtype kind %r on the path where %s' % (
                what, ma.dk, facts_text(s)), where)
        else:
            r.undecided(name, 'dtype of the mask')
    for kind, s2, want in spec_call(sc, s, 'lowest', [pack]):
        if kind != 'return' or s2.taint:
            r.undecided(name, 'specification: %s' % want)
            continue
        same = ma.length == want or E.truth(E.cmp('==', ma.length, want, s2), s2)
        if same is True:
            continue
        if not within(ma.length) or not within(want):
            r.undecided(name, 'length %s' % show(ma.length))
            continue
        r.viol('reset:length', 'after %s the mask has length %s, not %s (path: %s)' % (
            what, show(ma.length), show(want), facts_text(s2)), where)


def check(P, r):
    spec(P, SPEC)
    for ne in (True, None):
        sc = PackScene(P, other=True, nonempty=ne)
        for o in ('mask_reset()', 'data = dict', 'append_pack(other)'):
            name = '%s%s' % (o, '' if ne else ', data possibly empty')
            with r.obligation(name):
                for st in sc.starts:
                    for kind, s, v in OPS[o](sc, st.copy()):
                        if kind == 'return':
                            check_reset(sc, s, o, r, name)
        r.engine(sc.E)
    with r.obligation('construction'):
        sc = PackScene(P, mask=False)
        E = sc.E
        for data in (Sym('D', 'dict'), NONE):
            st = sc.st.copy()
            E.steps = 0
            for s, ref in E.instantiate(P.cls(PACK), [data], {}, st):
                check_reset(sc, s, 'ChannelPack(data)', r, 'construction', ref)
        r.engine(E)
    d, rate = Sym('d', 'num'), Sym('rate', 'num')
    for longer, kws in ((False, [{}, {'mindur': TRUE}, {'samplerate': rate}]), (True, [{'mindur': FALSE}])):
        for kw in kws:
            name = 'duration(d%s)' % ''.join(', %s=%s' % (k, v) for k, v in kw.items())
            with r.obligation(name):
                sc = PackScene(P)
                E = sc.E
                rt = kw.get('samplerate', K(1) if kw == {} else rate)
                if kw != {}:
                    kw = dict(kw, samplerate=rate)
                req = spec_call(sc, sc.st, 'required', [d, rt])[0][2]
                w = DurWatch(sc, lambda st: req, longer)
                where = P.func(PACK + '.duration').where
                for st in sc.starts:
                    st = st.copy()
                    start(st)
                    for kind, s, v in sc.call('duration', [d], kw, st):
                        if kind == 'raise':
                            if not v.implicit and not s.taint:
                                r.viol('duration:raise', '%s raises %s (path: %s)' % (name, v, facts_text(s)), v.site)
                            continue
                        m, ma = sc.mask_of(s)
                        if s.taint or ma is None:
                            r.undecided(name, 'mask unknown')
                            continue
                        if v != m:
                            if isinstance(v, K) or (isinstance(v, Ref) and s.get(v).kind == 'array' and
                                                    s.get(v).elem != ma.elem and not has_unk(s.get(v).elem)):
                                r.viol('duration:return', '%s returns %s, not the mask' % (name, show(v)), where)
                            elif not (isinstance(v, Ref) and s.get(v).kind == 'array' and s.get(v).elem == ma.elem):
                                r.undecided(name, 'returned value %s' % show(v))
                        if s.ghost.get('stale') == TRUE:
                            r.viol('duration:stale', '%s works on the sections of another mask' % name, where)
                            continue
                        if s.ghost.get('odd') == TRUE or has_unk(ma.elem):
                            r.undecided(name, 'mask written in another way')
                            continue
                        if s.ghost.get('filt') == ma.elem or w.bad:
                            continue
                        if ma.elem == sc.mask_elem and not longer and (
                                E.truth(E.cmp('<', req, K(2), s), s) is True or E.truth(req, s) is False):
                            continue
                        if ma.elem == sc.mask_elem:
                            r.viol('duration:unfiltered', '%s leaves the mask as it was on the path %s' % (
                                name, facts_text(s)), where)
                        else:
                            r.undecided(name, 'mask written in a loop that is not over the sections')
                for k, msg, wh in set(w.bad):
                    r.viol('duration:' + k, '%s: %s' % (name, msg), wh)
                for u in sorted(set(w.und))[:3]:
                    r.undecided(name, u)
                r.count('iteration_paths', w.iters)
                r.engine(E)
