RULE = """records(part, nof, fallback) is interpreted abstractly for arbitrary data and names dicts with pack(ch, part, nof) as an
uninterpreted selection.  The yielded value is decomposed into the field name and the column of position j and the row of
the iteration.  For every j the key behind the field name and the key of the column must be the same term, that of the
j-th smallest key of names (of data with fallback); the column must be selected with the caller's own part and nof, and
every row of the zipped columns must be yielded exactly once, unfiltered."""
TECHNIQUE = 'abstract interpretation; elementwise (position-indexed) comparison of the two sequences a record is built from'
from .common import *       # noqa
from .scen import PackScene

DATA, NAMES = Sym('p.data', 'dict'), Sym('p.names', 'dict')
J = Sym('j', 'int')
SELF_CALL = PACK + '.__call__'
KNOWN = {'keys', 'sorted', 'item', 'key', 'values', 'items', 'concat', 'str', 'lin', 'reversed', 'len', 'sel', 'at',
         'sorted_by'}


def select_model(E, st, b):
    v = list(b.values())
    names = list(b)
    ch = b.get('ch', v[1])
    el = T('sel', ch, b.get('part', NONE), b.get('nof', NONE))
    return [(st, st.alloc(ArrObj(el, T('rows', b.get('part', NONE), b.get('nof', NONE)), None, 'selected')))]


def deref(v, st):
    """a column reference inside a frozen sequence -> its element term"""
    if isinstance(v, Ref) and v.id in st.heap and st.get(v).kind == 'array':
        return st.get(v).elem
    if isinstance(v, T) and v.op == 'arrval':
        return v.args[0]
    return v


def root(v):
    """the dict that decides the number of elements of a sequence"""
    while True:
        if isinstance(v, Comp) and len(v.src) == 1 and not v.guards:
            v = v.src[0][0]
        elif isinstance(v, T) and v.op in ('sorted', 'keys', 'items', 'values', 'sortedby', 'list'):
            v = v.args[0]
        else:
            return v


def at_position(E, seq, st):
    """the j-th element of a sequence term -> (term, source term or None)"""
    if isinstance(seq, Comp) and len(seq.src) == 1 and not seq.guards:
        src, lid = seq.src[0]
        el = deref(seq.elem, st)
        return subst(el, {It(lid): J}), src
    if isinstance(seq, T) and seq.op == 'values' and seq.args[0] in (NAMES, DATA):
        return T('item', seq.args[0], T('key', seq.args[0], J)), seq
    if isinstance(seq, T) and seq.op in ('keys', 'sorted'):
        return norm(T('item', seq, J)), seq
    return None, None


def norm(v):
    if isinstance(v, T) and v.op == 'item' and isinstance(v.args[0], T) and v.args[0].op == 'item' and \
            isinstance(v.args[0].args[0], T) and v.args[0].args[0].op == 'sorted' and \
            isinstance(v.args[0].args[0].args[0], T) and v.args[0].args[0].args[0].op == 'items' and \
            v.args[1] in (K(0), K(1)):
        # keys are unique, so sorted pairs are in key order
        d = v.args[0].args[0].args[0].args[0]
        k = T('item', T('sorted', T('keys', d)), v.args[0].args[1])
        return k if v.args[1] == K(0) else T('item', d, k)
    if isinstance(v, T) and v.op == 'item' and isinstance(v.args[0], T) and v.args[0].op == 'keys' and v.args[1] == J:
        return T('key', v.args[0].args[0], J)
    return v


def key_of_name(n, prefix, fallback):
    """the dict key whose name the field is"""
    if isinstance(n, T) and n.op == 'item' and n.args[0] == NAMES:
        return 'name', n.args[1]
    if isinstance(n, T) and n.op == 'concat' and len(n.args) == 2 and n.args[0] == prefix and \
            isinstance(n.args[1], T) and n.args[1].op == 'str':
        return 'fallback', n.args[1].args[0]
    return None, n


def split_record(v, st):
    """-> (class term, row term)"""
    if isinstance(v, T) and v.op == 'mapped' and isinstance(v.args[0], T) and v.args[0].op == 'attr' and \
            v.args[0].args[1] in ('_make', K('_make')):
        return v.args[0].args[0], v.args[1]
    if isinstance(v, T) and v.op == 'ntmake':
        return v.args[0], v.args[1]
    if isinstance(v, T) and v.op == 'namedtuple' and len(v.args) > 2 and v.args[2]:
        star = v.args[2]
        for x in (star if isinstance(star, tuple) else (star,)):
            if isinstance(x, tuple) and len(x) == 2 and x[0] == '*':
                return v.args[0], x[1]
    return None, None


def check(P, r):
    where = P.func(PACK + '.records').where
    part, nof = Sym('part', 'int'), Sym('nof', 'str')
    for fb in (None, FALSE, TRUE):
        for p, n in ((None, None), (part, None), (K(0), None), (None, nof), (part, nof)):
            name = 'records(part=%s, nof=%s, fallback=%s)' % (p, n, fb)
            with r.obligation(name):
                sc = PackScene(P, opaque={SELF_CALL: select_model}, mask=False)
                E = sc.E
                kw = {}
                if p is not None:
                    kw['part'] = p
                if n is not None:
                    kw['nof'] = n
                if fb is not None:
                    kw['fallback'] = fb
                ys, ends = [], []

                def obs(kind, st, info):
                    if kind == 'yieldfrom':
                        gen_value(E, info['value'], st.copy(), ys)
                    elif kind == 'yield':
                        st.ghost['$y'] = TRUE
                        ys.append((info['value'], st.copy(), tuple(st.loops)))
                    elif kind == 'iter_end':
                        if any(isinstance(x, T) and x.op == 'zipstar' for x in walk(info['src'])) and \
                                not st.ghost.pop('$y', None) and not st.taint:
                            ends.append(facts_text(st))
                sc.user_obs.append(obs)
                for k0, s0, v0 in sc.assign('nof', K('filter')):
                    if k0 == 'return':
                        sc.st = s0
                fi = P.func(PACK + '.records')
                fr = fi.is_gen
                prefix = sc.st.get(sc.pack).attrs.get('FALLBACK_PREFIX', K('ch'))
                if fr:
                    outs = E.run_gen(fi, [sc.pack], kw, sc.st.copy())
                else:
                    outs = sc.call('records', [], kw)
                    # a returned generator or iterator
                    for kind, s, v in outs:
                        if kind == 'return':
                            gen_value(E, v, s, ys)
                r.engine(E)
                if not ys:
                    r.undecided(name, 'no yielded value found')
                    continue
                for e in ends:
                    r.viol('rows', '%s: an iteration over the rows yields no record (%s)' % (name, e), where)
                for v, s, loops in ys:
                    judge(r, name, E, v, s, loops, fb == TRUE, p or NONE, n or NONE, prefix, where)
                for kind, s, v in outs:
                    if kind == 'raise' and not v.implicit and v.name not in ('KeyError', 'ValueError', 'IndexError') \
                            and not s.taint:
                        r.viol('raise', '%s raises %s (path: %s)' % (name, v.name, facts_text(s)), v.site)


def gen_value(E, v, s, ys):
    if isinstance(v, T) and v.op == 'mapped_seq':
        ys.append((v, s, ()))
    elif isinstance(v, T) and v.op == 'map':
        ys.append((T('mapped', v.args[0], T('item', v.args[1], Sym('row', 'int'))), s, ()))
    elif isinstance(v, Comp) and len(v.src) == 1 and not v.guards:
        ys.append((v.elem, s, ()))
    elif isinstance(v, Ref) and v.id in s.heap and s.get(v).kind == 'list':
        w = E.listval(v, s)
        if isinstance(w, Comp):
            ys.append((w.elem, s, ()))


def judge(r, name, E, v, s, loops, fallback, part, nof, prefix, where):
    if s.taint:
        return r.undecided(name, 'path depends on unknown')
    if isinstance(v, T) and v.op == 'item' and isinstance(v.args[0], T) and v.args[0].op == 'sublist' and \
            isinstance(v.args[0].args[0], T) and v.args[0].args[0].op in ('map', 'zipstar') and \
            within(v.args[0].args[1], {'slice', 'lin'}):
        return r.viol('rows', '%s: only a part of the records is yielded: %s' % (name, v.args[0].args[1:]), where)
    cls, row = split_record(v, s)
    if not (isinstance(cls, T) and cls.op == 'ntclass'):
        return r.undecided(name, 'yields %s' % show(v))
    if not (isinstance(row, T) and row.op == 'item' and isinstance(row.args[0], T) and row.args[0].op == 'zipstar'):
        return r.undecided(name, 'row is %s' % show(row))
    idx = row.args[1]
    if not (isinstance(idx, It) or idx == Sym('row', 'int')):
        if within(idx, {'lin'}):
            return r.viol('rows', '%s: the record of iteration i is row %s' % (name, show(idx)), where)
        return r.undecided(name, 'row index %s' % show(idx))
    f, fsrc = at_position(E, cls.args[1], s)
    c, csrc = at_position(E, row.args[0].args[0], s)
    if f is None or c is None:
        return r.undecided(name, 'fields %s, columns %s' % (show(cls.args[1]), show(row.args[0].args[0])))
    f, c = subst_norm(f), subst_norm(c)
    want = T('item', T('sorted', T('keys', DATA if fallback else NAMES)), J)
    what, fk = key_of_name(f, prefix, fallback)
    if what is None:
        if within(f, KNOWN):
            return r.viol('fields', '%s: field j is named %s' % (name, show(f)), where)
        return r.undecided(name, 'field j is named %s' % show(f))
    if what != ('fallback' if fallback else 'name'):
        return r.viol('fields', '%s: field j is named %s' % (name, show(f)), where)
    if isinstance(c, T) and c.op == 'at' and isinstance(c.args[0], T) and c.args[0].op == 'item' and \
            c.args[0].args[0] == DATA and part == NONE and nof == NONE:
        return r.viol('selection', '%s: columns are taken from data whatever the nof attribute says' % name, where)
    if not (isinstance(c, T) and c.op == 'sel'):
        return r.undecided(name, 'column j is %s' % show(c))
    ck = c.args[0]
    if c.args[1] != part or c.args[2] != nof:
        if within(c.args[1], KNOWN) and within(c.args[2], KNOWN):
            return r.viol('selection', '%s: columns are selected with part=%s, nof=%s' % (
                name, show(c.args[1]), show(c.args[2])), where)
        return r.undecided(name, 'selection %s' % show(c))
    if isinstance(ck, T) and ck.op in ('item', 'concat') and ck == f:
        # addressed by the name itself
        if fallback:
            return r.viol('order', '%s: columns are addressed by fallback string, which can be the name of another '
                          'channel' % name, where)
        return r.undecided(name, 'columns are addressed by name')
    for k, t in ((fk, 'field'), (ck, 'column')):
        if k != want:
            if within(k, KNOWN) or any(isinstance(x, T) and x.op == 'sortedby' and x.args[1:] == ((('reverse', TRUE),),)
                                       for x in walk(k)):
                return r.viol('order', '%s: %s j belongs to key %s, expected %s' % (name, t, show(k), show(want)), where)
            return r.undecided(name, '%s j belongs to key %s' % (t, show(k)))
    f0, c0 = root(fsrc), root(csrc)
    if f0 != c0:
        if f0 in (DATA, NAMES) and c0 in (DATA, NAMES):
            return r.viol('order', '%s: fields come from %s, columns from %s' % (name, show(fsrc), show(csrc)), where)
        return r.undecided(name, 'different sources %s, %s' % (show(fsrc), show(csrc)))
    # filtered?
    it = idx if isinstance(idx, It) else None
    if it is not None:
        extra = [a for a, w in s.facts.items() if it in list(walk(a)) and any(
            isinstance(x, T) and x.op in ('zipstar', 'mapped') for x in walk(a))
            and not (isinstance(a, T) and a.op in ('lt0', 'le0'))]
        if extra:
            return r.undecided(name, 'rows are yielded under a condition: %s' % show(extra[0]))


def subst_norm(v):
    if isinstance(v, T):
        n = T(v.op, *[subst_norm(a) if isinstance(a, V) else a for a in v.args])
        return norm(n)
    return v
