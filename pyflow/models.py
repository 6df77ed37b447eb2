"""Models of Python's built-ins, numpy and other externals.

A model gives an abstract result; what is not modelled becomes an
uninterpreted term over its arguments.
"""
import ast as _ast
import builtins as _bi
import posixpath as _posix
import re as _re
import string as _string
import mmap as _mmap
import struct as _struct

from .values import (V, K, Sym, It, T, Tup, Ref, Fn, Cls, Bound, Ext, Mod, Unk, Comp, NONE, TRUE, FALSE,
                     walk, lin_add, lin_scale, is_num)
from .interp import (MUTATORS, Inst, DictObj, ListObj, ArrObj, mul, TYPES_OF_BUILTIN, dict_root)
from .project import ClassInfo

NAN = T('nan')
CONSTS = {'numpy.nan': NAN, 'numpy.NaN': NAN, 'numpy.NAN': NAN, 'math.nan': NAN,
          'string.whitespace': Sym('string.whitespace', 'str'),
          'numpy.bool_': Ext('builtins.bool'), 'numpy.bool': Ext('builtins.bool')}
for _n in ('whitespace', 'digits', 'ascii_letters', 'ascii_uppercase', 'ascii_lowercase', 'punctuation', 'printable'):
    CONSTS['string.' + _n] = K(getattr(_string, _n))
MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


# ------------------------------------------------------------------ arrays
def new_array(st, elem, length, dk=None, name='', base=None, ndim=1):
    return st.alloc(ArrObj(elem, length, dk, name, base, ndim))


def ver_token(E, st):
    if st.loops:
        return K('L%d@%s' % (st.loops[0][1], E.site()))
    st.wcount += 1
    return K(st.wcount)


def arr(st, v):
    return isinstance(v, Ref) and st.get(v).kind == 'array'


def arr_write(E, st, ref, how, key=None, value=None, elem=None):
    o = st.mut(ref)
    o.elem = elem if elem is not None else T('at', T('array', o.name or ('#%d' % ref.id)), ver_token(E, st))
    o.writes += 1
    E.emit('arrwrite', st, arr=ref, how=how, key=key, value=value, whole=elem is not None)
    if o.base is not None and o.base in [Ref(i) for i in st.heap]:
        arr_write(E, st, o.base, how + ' through a view', key, value)


DK = {'int': 'i', 'float': 'f', 'bool': 'b', 'complex': 'c', 'object': 'O', 'str': 'U'}


def dtype_kind(d):
    if isinstance(d, Ext):
        return DK.get(d.name.split('.')[-1])
    if isinstance(d, K) and isinstance(d.v, str):
        return DK.get(d.v, {'?': 'b'}.get(d.v, d.v[:1] if d.v[:1] in 'iufcbOSUmM' else None))
    return None


RANK = {'b': 0, 'u': 1, 'i': 2, 'f': 3, 'c': 4}


def cast(elem, src, dst):
    """An element of an array of kind src kept in one of kind dst."""
    if dst is None or dst == src or dst == 'O':
        return elem
    if elem == NAN and dst in ('f', 'c'):
        return elem
    if elem == NONE and src is None and dst == 'f':
        return NAN
    if isinstance(elem, K) and not isinstance(elem.v, (str, bytes, type(None))) and dst in RANK and (
            dst != 'b' or isinstance(elem.v, bool)):
        return elem
    if src in RANK and dst in RANK and RANK[dst] >= RANK[src]:
        return elem
    return T('cast', elem, K(dst))


@model('numpy.array', 'numpy.asarray', 'numpy.asanyarray')
def np_array(E, st, args, kw, default_copy=None):
    name = getattr(E.cur, 'func', None)
    val = args[0] if args else kw.get('object', NONE)
    dt = kw.get('dtype', args[1] if len(args) > 1 else NONE)
    dk = None if dt == NONE else dtype_kind(dt) or '?'
    copy = kw.get('copy', TRUE if default_copy is None else default_copy)
    if arr(st, val):
        o = st.get(val)
        nocopy = E.truth(copy, st) is False
        if nocopy and (dk is None or dk == o.dk):
            return [(st, val)]
        return [(st, new_array(st, cast(o.elem, o.dk, dk), o.length, dk or o.dk, '', None, o.ndim))]
    sv = E.seqval(val, st)
    ln = E.length(val, st)
    if dk is None and isinstance(sv, Tup) and not sv.items or ln == K(0):
        dk = dk or 'f'
    if isinstance(sv, Comp) and len(sv.src) == 1 and not sv.guards:
        elem = T('map1', sv)
    elif isinstance(sv, T) and sv.op == 'repeat' and isinstance(sv.args[0], Tup) and len(sv.args[0].items) == 1:
        elem = sv.args[0].items[0]
        dk = dk or ('b' if elem in (TRUE, FALSE) else None)
    else:
        elem = T('at', sv, K(0))
    r = new_array(st, elem, ln, dk, '', None, T('ndim', val if not isinstance(val, Ref) else sv))
    o = st.mut(r)
    o.src = val
    t = T('nparray', sv)
    s = E.implicit(st, t, 'Exception')
    return [(s, r)] if s is not None else []


def np_asarray(E, st, args, kw):
    return np_array(E, st, args, kw, FALSE)


MODELS['numpy.asarray'] = MODELS['numpy.asanyarray'] = np_asarray


@model('numpy.copy')
def np_copy(E, st, args, kw):
    return np_array(E, st, args, kw)


def _shape_len(E, st, v):
    it = E.fixed_items(v, st)
    if it is not None and len(it) == 1:
        return it[0]
    if isinstance(v, T) and v.op == 'shape':
        return v.args[0]
    return v


@model('numpy.full')
def np_full(E, st, args, kw):
    n = _shape_len(E, st, args[0] if args else kw.get('shape'))
    v = args[1] if len(args) > 1 else kw.get('fill_value')
    dt = kw.get('dtype', args[2] if len(args) > 2 else NONE)
    dk = dtype_kind(dt) if dt != NONE else ('f' if v == NAN else 'O' if v == NONE else
                                           'b' if isinstance(v, K) and isinstance(v.v, bool) else None)
    return [(st, new_array(st, v, n, dk))]


def _fill(v):
    def f(E, st, args, kw):
        n = _shape_len(E, st, args[0] if args else kw.get('shape'))
        dt = kw.get('dtype', args[1] if len(args) > 1 else NONE)
        dk = dtype_kind(dt) if dt != NONE else 'f'
        if dt != NONE and dk is None:
            dk = '?'
        return [(st, new_array(st, K(bool(v)) if dk == 'b' else K(v), n, dk))]
    return f


MODELS['numpy.ones'] = _fill(1)
MODELS['numpy.zeros'] = _fill(0)


@model('numpy.empty')
def np_empty(E, st, args, kw):
    dt = kw.get('dtype', args[1] if len(args) > 1 else NONE)
    dk = 'f' if dt == NONE else dtype_kind(dt) or '?'
    v = NONE if dk == 'O' else Unk('empty')
    return [(st, new_array(st, v, _shape_len(E, st, args[0] if args else kw['shape']), dk))]



def _fill_like(v):
    def f(E, st, args, kw):
        a = args[0]
        dt = kw.get('dtype', args[1] if len(args) > 1 else NONE)
        dk = dtype_kind(dt) if dt != NONE else (st.get(a).dk if arr(st, a) else None)
        val = v
        if v is None:
            val = args[1] if len(args) > 1 else kw.get('fill_value')
            dk = dtype_kind(kw['dtype']) if 'dtype' in kw else (st.get(a).dk if arr(st, a) else None)
            if val == NAN and dk in ('i', 'u', 'b'):
                val = Unk('nan cast to int')
        else:
            val = K(bool(v)) if dk == 'b' else K(v)
        return [(st, new_array(st, val, E.length(a, st), dk))]
    return f


MODELS['numpy.ones_like'] = _fill_like(1)
MODELS['numpy.zeros_like'] = _fill_like(0)
MODELS['numpy.full_like'] = _fill_like(None)


def ite(c, a, b):
    if isinstance(c, K):
        return a if c.v else b
    if isinstance(c, T) and c.op == 'not':
        return ite(c.args[0], b, a)
    if a == b:
        return a
    return T('ite', c, a, b)


@model('numpy.where')
def np_where(E, st, args, kw):
    if len(args) != 3:
        return [(st, Unk('where'))]
    c, a, b = args
    ln = next((st.get(x).length for x in args if arr(st, x)), None)
    if ln is None:
        return [(st, T('call', 'numpy.where', tuple(args), ()))]
    ec = E.elem_of(c, st)
    return [(st, new_array(st, ite(ec, E.elem_of(a, st), E.elem_of(b, st)), ln))]


def bool_term(op, a, b=None):
    if op == 'not':
        if isinstance(a, K):
            return K(not a.v)
        if isinstance(a, T) and a.op == 'not':
            return a.args[0]
        return T('not', a)
    if isinstance(a, K) and isinstance(a.v, bool):
        if op == 'and':
            return b if a.v else FALSE
        return TRUE if a.v else b
    if isinstance(b, K) and isinstance(b.v, bool):
        return bool_term(op, b, a)
    if a == b:
        return a
    x, y = (a, b) if repr(a) <= repr(b) else (b, a)
    return T(op, x, y)


def _ufunc(op):
    def f(E, st, args, kw):
        es = [E.elem_of(a, st) for a in args[:2]]
        ln = next((st.get(x).length for x in args if arr(st, x)), T('len', E.seqval(args[0], st)))
        if op == 'not':
            e = bool_term('not', es[0])
        elif op in ('and', 'or'):
            e = bool_term(op, *es)
        else:
            e = T(op, *es)
        out = kw.get('out', args[(1 if op == 'not' else 2)] if len(args) > (1 if op == 'not' else 2) else None)
        if isinstance(out, Tup) and len(out.items) == 1:
            out = out.items[0]
        if out is not None and arr(st, out):
            arr_write(E, st, out, 'out=', value=args, elem=e)
            return [(st, out)]
        return [(st, new_array(st, e, ln, 'b'))]
    return f


MODELS['numpy.logical_and'] = MODELS['numpy.bitwise_and'] = _ufunc('and')
MODELS['numpy.logical_or'] = MODELS['numpy.bitwise_or'] = _ufunc('or')
MODELS['numpy.logical_not'] = MODELS['numpy.invert'] = _ufunc('not')
MODELS['numpy.logical_xor'] = _ufunc('xor')


@model('numpy.append', 'numpy.concatenate', 'numpy.hstack')
def np_append(E, st, args, kw):
    if len(args) >= 2:
        parts = args[:2]
    else:
        parts = E.fixed_items(args[0], st) if args else None
    if parts is None:
        return [(st, new_array(st, Unk('concat'), Unk('len')))]
    es = tuple(E.elem_of(p, st) for p in parts)
    ls = K(0)
    for p in parts:
        ls = lin_add(ls, E.length(p, st))
    r = new_array(st, T('cat', *es), ls)
    s = E.implicit(st, T('cat', *es), 'Exception')
    return [(s, r)] if s is not None else []


def _np_mutator(i):
    def f(E, st, args, kw):
        if len(args) > i and arr(st, args[i]):
            arr_write(E, st, args[i], 'numpy mutator')
        return [(st, NONE)]
    return f


for _n in ('put', 'copyto', 'place', 'putmask', 'fill_diagonal'):
    MODELS['numpy.' + _n] = _np_mutator(0)
MODELS['numpy.random.shuffle'] = _np_mutator(0)


@model('numpy.nan_to_num')
def np_nan_to_num(E, st, args, kw):
    if args and arr(st, args[0]):
        o = st.get(args[0])
        if 'copy' in kw and E.truth(kw['copy'], st) is not True:
            arr_write(E, st, args[0], 'nan_to_num')
            return [(st, args[0])]
        return [(st, new_array(st, T('nan_to_num', o.elem), o.length, o.dk))]
    return [(st, Unk('nan_to_num'))]


@model('numpy.ndim')
def np_ndim(E, st, args, kw):
    if arr(st, args[0]):
        n = st.get(args[0]).ndim
        return [(st, n if isinstance(n, V) else K(n))]
    return [(st, T('ndim', args[0]))]


@model('numpy.all', 'numpy.any')
def np_all(E, st, args, kw):
    n = E.ext_name if E.ext_name in ('all', 'any') else 'all'
    return [(st, T('arr' + n, E.elem_of(args[0], st)))]


SUBKINDS = {'number': 'iufcm', 'integer': 'ium', 'signedinteger': 'im', 'unsignedinteger': 'u', 'floating': 'f',
            'inexact': 'fc', 'complexfloating': 'c', 'bool_': 'b', 'bool': 'b', 'character': 'SU', 'object_': 'O',
            'str_': 'U', 'bytes_': 'S', 'flexible': 'SUV', 'generic': 'iufcbOSUmMV', 'datetime64': 'M',
            'timedelta64': 'm', 'float': 'f', 'complex': 'c', 'object': 'O', 'str': 'U', 'bytes': 'S', 'void': 'V'}


@model('numpy.issubdtype')
def np_issubdtype(E, st, args, kw):
    if len(args) == 2 and isinstance(args[0], T) and args[0].op == 'dtype' and isinstance(args[1], Ext):
        ks = SUBKINDS.get(args[1].name.split('.')[-1])
        dk = args[0].args[1].v
        if ks is not None and dk is not None and dk != '?':
            return [(st, K(dk in ks))]
        if ks is not None:
            return [(st, T('in', T('dtypekind', args[0].args[0]), Tup([K(c) for c in sorted(ks)])))]
    return [(st, T('call', 'numpy.issubdtype', tuple(E.freeze_deep(a, st) for a in args), ()))]


@model('numpy.isnan')
def np_isnan(E, st, args, kw):
    if arr(st, args[0]):
        o = st.get(args[0])
        return [(st, new_array(st, T('isnan', o.elem), o.length, 'b'))]
    return [(st, T('isnan', args[0]))]


# ------------------------------------------------------------------ built-in functions
@model('builtins.len', 'numpy.size')
def b_len(E, st, args, kw):
    return [(st, E.length(args[0], st))]


@model('builtins.isinstance')
def b_isinstance(E, st, args, kw):
    return [(st, E.isinst(args[0], args[1], st))]


@model('builtins.range')
def b_range(E, st, args, kw):
    a = [K(0)] + args if len(args) == 1 else list(args)
    if len(a) < 3:
        a.append(K(1))
    if all(isinstance(x, K) and isinstance(x.v, int) for x in a) and a[2].v and len(range(*[x.v for x in a])) <= E.unroll:
        return [(st, Tup([K(i) for i in range(*[x.v for x in a])]))]
    return [(st, T('range', *a))]


@model('builtins.enumerate')
def b_enumerate(E, st, args, kw):
    start = kw.get('start', args[1] if len(args) > 1 else K(0))
    it = E.fixed_items(args[0], st)
    if it is not None and isinstance(start, K):
        return [(st, Tup([Tup([K(start.v + i), x]) for i, x in enumerate(it)]))]
    if isinstance(start, K) and isinstance(start.v, int) and E.gen_end(args[0], st):
        o = st.get(args[0])
        if isinstance(o.attrs.get('n'), K):
            n = o.attrs['n'].v
            g = Inst('generator')
            g.attrs = dict(o.attrs)
            g.attrs['gen'] = Tup([Tup([K(start.v + i), x]) for i, x in enumerate(o.attrs['gen'].items[n:])])
            g.attrs['n'] = K(0)
            g.attrs['end'] = K(E.gen_end(args[0], st))
            if 'snaps' in g.attrs:
                g.attrs['snaps'] = Tup(list(g.attrs['snaps'].items[n:]))
            E.consume(args[0], st)
            if 'snaps' in g.attrs:
                E.gen_at(st, g.attrs['snaps'].items[0])
            return [(st, st.alloc(g))]
    return [(st, T('enumerate', E.seqval(args[0], st), start))]


@model('builtins.zip', 'itertools.izip')
def b_zip(E, st, args, kw):
    if '*' in kw:
        if not args:
            return [(st, T('zipstar', kw['*']))]
        return [(st, T('zipstar2', Tup([E.seqval(a, st) for a in args]), kw['*']))]
    its = [E.fixed_items(a, st) for a in args]
    if not args:
        return [(st, Tup(()))]
    if all(i is not None for i in its):
        return [(st, Tup([Tup(x) for x in zip(*its)]))]
    return [(st, T('zip', *[E.seqval(a, st) for a in args]))]


@model('builtins.map')
def b_map(E, st, args, kw):
    it = E.fixed_items(args[1], st) if len(args) == 2 else None
    if it is not None and len(it) <= 8:
        res = [(st, [])]
        for x in it:
            res = [(s2, acc + [v]) for s, acc in res for s2, v in E.call(args[0], [x], {}, s)]
        return [(s, Tup(a)) for s, a in res]
    if len(args) == 2 and isinstance(args[0], (Fn, Ext, Bound, Cls)):
        # elementwise application
        sv = E.seqval(args[1], st)
        lid = 'm:%s' % E.site()
        E.drop_it(st, It(lid))
        pre = dict(st.facts)
        el = E.elem_at(sv, It(lid), st)
        r = E.call(args[0], [el], {}, st)
        if r:
            v = E.cases(r, pre)
            s = E.join_all([x for x, _ in r]) if len(r) > 1 else r[0][0]
            E.drop_it(s, It(lid))
            if not any(isinstance(x, Ref) for x in walk(v)):
                return [(s, Comp([(sv, lid)], [], v))]
            return [(s, T('map', args[0], sv))]
        return []
    return [(st, T('map', args[0], *[E.seqval(a, st) for a in args[1:]]))]


@model('builtins.filter')
def b_filter(E, st, args, kw):
    return [(st, T('filter', args[0], E.seqval(args[1], st)))]


def strip_seq(v):
    while isinstance(v, T) and v.op in ('seqlist', 'seqtuple'):
        v = v.args[0]
    return v


@model('builtins.sorted')
def b_sorted(E, st, args, kw):
    if kw:
        it = E.fixed_items(args[0], st)
        rev = kw.get('reverse', K(False))
        if it is not None and set(kw) <= {'key', 'reverse'} and isinstance(rev, K):
            keys, s = [], st
            for x in it:
                if kw.get('key', NONE) == NONE:
                    rs = [(s, x)]
                else:
                    rs = E.call(kw['key'], [x], {}, s)
                if len(rs) != 1 or not isinstance(rs[0][1], (K, Tup)):
                    break
                s = rs[0][0]
                keys.append(rs[0][1])
            else:
                order = const_order(keys, bool(rev.v))
                if order is not None:
                    return [(s, s.alloc(ListObj('list', [('one', it[i]) for i in order])))]
        return [(st, T('sortedby', E.seqval(args[0], st), tuple(sorted(kw.items()))))]
    v = strip_seq(E.seqval(args[0], st))
    if isinstance(v, T) and v.op in ('sorted',):
        return [(st, v)]
    it = E.fixed_items(args[0], st)
    order = const_order(it) if it is not None else None
    if order is not None:
        return [(st, st.alloc(ListObj('list', [('one', it[i]) for i in order])))]
    return [(st, T('sorted', v))]


@model('builtins.reversed')
def b_reversed(E, st, args, kw):
    it = E.fixed_items(args[0], st)
    if it is not None:
        return [(st, Tup(it[::-1]))]
    return [(st, T('reversed', E.seqval(args[0], st)))]


@model('builtins.list')
def b_list(E, st, args, kw):
    if not args:
        return [(st, st.alloc(ListObj('list')))]
    if E.gen_end(args[0], st):
        E.raise_(st, E.gen_end(args[0], st))
        return []
    it = E.fixed_items(args[0], st)
    if it is not None:
        E.consume(args[0], st)
        return [(st, st.alloc(ListObj('list', [('one', x) for x in it])))]
    sv = E.seqval(args[0], st)
    exhaust(E, st, args[0])
    s = E.implicit(st, T('list', sv), 'Exception')
    if s is None:
        return []
    return [(s, s.alloc(ListObj('list', [('seq', sv)])))]


def exhaust(E, st, v):
    if isinstance(v, Ref) and st.get(v).kind == 'inst' and st.get(v).cls == 'generator':
        E.emit('exhaust', st, gen=v)


@model('builtins.tuple')
def b_tuple(E, st, args, kw):
    if not args:
        return [(st, Tup(()))]
    if E.gen_end(args[0], st):
        E.raise_(st, E.gen_end(args[0], st))
        return []
    it = E.fixed_items(args[0], st)
    if it is not None:
        E.consume(args[0], st)
        return [(st, Tup(it))]
    exhaust(E, st, args[0])
    sv = E.seqval(args[0], st)
    if isinstance(sv, T) and sv.op == 'seqtuple':
        return [(st, sv)]
    s = E.implicit(st, T('tuple', sv), 'Exception')
    return [(s, T('seqtuple', sv))] if s is not None else []


@model('builtins.set', 'builtins.frozenset')
def b_set(E, st, args, kw):
    if not args:
        return [(st, st.alloc(ListObj('set')))]
    it = E.fixed_items(args[0], st)
    if it is not None:
        return [(st, st.alloc(ListObj('set', [('one', x) for x in it])))]
    v = strip_seq(E.seqval(args[0], st))
    if isinstance(v, T) and v.op in ('keys', 'setof'):
        return [(st, v if v.op == 'setof' else T('setof', v))]
    return [(st, T('setof', v))]


@model('array.array')
def m_array(E, st, args, kwargs):
    # elements of an array of fixed items; the range of the type code is not modelled
    if kwargs or not args or not isinstance(args[0], K):
        return None
    if len(args) == 1:
        return [(st, st.alloc(ListObj('list')))]
    its = E.fixed_items(args[1], st) if isinstance(args[1], (Ref, Tup)) else None
    if its is None:
        return None
    return [(st, st.alloc(ListObj('list', [('one', x) for x in its])))]


@model('builtins.dict', 'collections.OrderedDict')
def b_dict(E, st, args, kw):
    if args and is_vars(args[0]):
        d = vars_snapshot(E, st, args[0])
        args = [Unk('attribute dict') if d is None else d] + list(args[1:])
    r = st.alloc(DictObj())
    return [(s, r) for s, _ in dict_update(E, st, r, args, kw, quiet=True)]


@model('collections.defaultdict')
def b_defaultdict(E, st, args, kw):
    d = DictObj()
    d.default = args[0] if args else NONE
    return [(st, st.alloc(d))]


@model('builtins.str', 'builtins.repr', 'builtins.bytes', 'builtins.ascii')
def b_str(E, st, args, kw):
    n = E.ext_name
    if n not in ('str', 'repr', 'bytes', 'ascii'):
        n = 'str'
    if not args:
        return [(st, K('' if n != 'bytes' else b''))]
    if n == 'str' and len(args) == 1 and isinstance(args[0], K) and isinstance(args[0].v, (int, str)) \
            and not isinstance(args[0].v, bool):
        return [(st, K(str(args[0].v)))]
    if n == 'str' and len(args) == 1 and E.typeof(args[0], st) == 'str':
        return [(st, args[0])]
    if n == 'str' and (len(args) == 2 and not kw or len(args) == 1 and set(kw) == {'encoding'}):
        return call_method(E, st, args[0], 'decode', [args[1] if len(args) == 2 else kw['encoding']], {})
    return [(st, T(n, *[E.freeze_deep(a, st) for a in args]))]


@model('builtins.int')
def b_int(E, st, args, kw):
    if not args:
        return [(st, K(0))]
    v = args[0]
    if isinstance(v, K):
        try:
            return [(st, K(int(v.v, *[a.v for a in args[1:]]) if args[1:] else int(v.v)))]
        except (ValueError, TypeError) as e:
            E.raise_(st, type(e).__name__)
            return []
    if len(args) == 1 and E.typeof(v, st) == 'int':
        return [(st, v)]
    t = T('int', *args)
    s = E.implicit(st, t, 'ValueError')
    return [(s, t)] if s is not None else []


@model('builtins.float')
def b_float(E, st, args, kw):
    if not args:
        return [(st, K(0.0))]
    v = args[0]
    if isinstance(v, K):
        if isinstance(v.v, str) and v.v.strip().lower() in ('nan', '+nan', '-nan'):
            return [(st, NAN)]
        try:
            return [(st, K(float(v.v)))]
        except (ValueError, TypeError) as e:
            E.raise_(st, type(e).__name__)
            return []
    t = T('float', v)
    b = v
    while isinstance(b, T) and b.op == 'mcall' and b.args[1] == 'replace' and len(b.args[2]) == 2 and \
            all(isinstance(x, K) and x.v for x in b.args[2]):
        b = b.args[0]
    text = E.typeof(b, st) in ('str', 'bytes')
    if text and E.truth(b, st) is False:
        E.raise_(st, 'ValueError')
        return []
    s = E.implicit(st, t, 'ValueError')
    if s is not None and text and s.facts.get(T('raises', t)) is False:
        E.assume(E.truthval(b, s), True, s)     # an empty text is no number
    return [(s, t)] if s is not None else []


@model('builtins.bool')
def b_bool(E, st, args, kw):
    t = E.truth(args[0], st) if args else False
    return [(st, K(t) if t is not None else E.truthval(args[0], st))]


@model('builtins.type')
def b_type(E, st, args, kw):
    if len(args) != 1:
        return [(st, Unk('type'))]
    v = args[0]
    if isinstance(v, Ref) and st.get(v).kind == 'inst' and isinstance(st.get(v).cls, ClassInfo):
        return [(st, Cls(st.get(v).cls))]
    t = E.typeof(v, st)
    if t in TYPES_OF_BUILTIN.values():
        return [(st, Ext('builtins.' + t))]
    if t == 'NoneType':
        return [(st, Ext('builtins.NoneType'))]
    return [(st, T('type', v))]


@model('builtins.hasattr')
def b_hasattr(E, st, args, kw):
    v, n = args
    if not isinstance(n, K):
        return [(st, Unk('hasattr'))]
    n = n.v
    ty = E.typeof(v, st)
    py = {'int': int, 'str': str, 'bytes': bytes, 'list': list, 'tuple': tuple, 'dict': dict, 'set': set,
          'float': float, 'bool': bool, 'NoneType': type(None), 'range': range, 'generator': type(i for i in ())}
    if ty in py:
        return [(st, K(hasattr(py[ty], n)))]
    if ty == 'ndarray' and n in ('__iter__', '__len__', '__getitem__', 'dtype', 'shape', 'ndim'):
        return [(st, TRUE)]
    if isinstance(v, Ref) and st.get(v).kind == 'inst':
        o = st.get(v)
        if isinstance(o.cls, ClassInfo):
            if n in o.attrs or E.p.find_method(o.cls, n) or any(
                    isinstance(c, ClassInfo) and n in c.attrs for c in E.p.mro(o.cls)):
                return [(st, TRUE)]
            if not o.open:
                return [(st, FALSE)]
        if o.cls == 'mmap':
            return [(st, K(hasattr(_mmap.mmap, n)))]
        if o.cls == 'file' and n in ('close', 'closed', 'read', 'readline', '__iter__', '__enter__', '__exit__') or \
                o.cls == 'zip' and n in ('close', 'open', 'read', '__enter__', '__exit__', 'namelist'):
            return [(st, TRUE)]
    for h in E.hasattr_hooks:
        r = h(E, st, v, n)
        if r is not None:
            return [(st, r)]
    return [(st, T('truthy', T('hasattr', v, n)))]


@model('builtins.getattr')
def b_getattr(E, st, args, kw):
    if isinstance(args[1], K):
        if len(args) == 2:
            return E.getattr(args[0], args[1].v, st)
        o = args[0]
        if isinstance(o, Ref) and st.get(o).kind == 'inst' and isinstance(st.get(o).cls, ClassInfo):
            ob = st.get(o)
            if args[1].v in ob.attrs or E.p.find_method(ob.cls, args[1].v) or any(
                    isinstance(c, ClassInfo) and args[1].v in c.attrs for c in E.p.mro(ob.cls)):
                return E.getattr(o, args[1].v, st)
            if not ob.open:
                return [(st, args[2])]
        if isinstance(o, Ref) and st.get(o).kind == 'inst' and st.get(o).cls in ('file', 'zip', 'mmap'):
            if args[1].v in st.get(o).attrs or args[1].v in FILEATTRS:
                if args[1].v == 'name' and '$noname' in st.get(o).attrs:
                    return [(st, args[2])]
                return E.getattr(o, args[1].v, st)
            if args[1].v == 'mode' and isinstance(st.get(o).attrs.get('$typ'), K):
                return [(st.copy(), args[2]), (st, K('rb' if st.get(o).attrs['$typ'].v == 'bytes' else 'r'))]
        has = b_hasattr(E, st, args[:2], {})[0][1]
        if has == FALSE:
            return [(st, args[2])]
        if has == TRUE and isinstance(o, Ref):
            return E.getattr(o, args[1].v, st)
        return [(st, T('getattr', args[0], args[1].v, args[2]))]
    return [(st, Unk('getattr'))]


@model('builtins.setattr')
def b_setattr(E, st, args, kw):
    if isinstance(args[1], K):
        return [(s, NONE) for s in E.setattr(args[0], args[1].v, args[2], st)]
    E.emit('dynsetattr', st, obj=args[0])
    st.taint = st.taint + (E.site(),)
    return [(st, NONE)]


@model('builtins.delattr')
def b_delattr(E, st, args, kw):
    if isinstance(args[1], K):
        return del_attr(E, st, args[0], args[1].v)
    return [(st, NONE)]


@model('builtins.object.__setattr__')
def o_setattr(E, st, args, kw):
    if isinstance(args[1], K) and isinstance(args[0], Ref):
        return [(s, NONE) for s in E.raw_setattr(args[0], args[1].v, args[2], st)]
    E.emit('dynsetattr', st, obj=args[0])
    st.taint = st.taint + (E.site(),)
    return [(st, NONE)]


@model('builtins.object.__delattr__')
def o_delattr(E, st, args, kw):
    if isinstance(args[1], K) and isinstance(args[0], Ref):
        return raw_delattr(E, st, args[0], args[1].v)
    E.emit('delattr', st, obj=args[0], name=None)
    return [(st, NONE)]


@model('builtins.object.__init__')
def o_init(E, st, args, kw):
    return [(st, NONE)]


@model('builtins.print', 'pprint.pprint')
def b_print(E, st, args, kw):
    return [(st, NONE)]


@model('builtins.any', 'builtins.all')
def b_any(E, st, args, kw):
    n = E.ext_name
    it = E.fixed_items(args[0], st)
    if it is not None:
        ts = [E.truth(x, st) for x in it]
        if n == 'any':
            if any(t is True for t in ts):
                return [(st, TRUE)]
            if all(t is False for t in ts):
                return [(st, FALSE)]
        else:
            if any(t is False for t in ts):
                return [(st, FALSE)]
            if all(t is True for t in ts):
                return [(st, TRUE)]
    return [(st, T('truthy', T(n, E.seqval(args[0], st))))]


@model('builtins.min', 'builtins.max')
def b_min(E, st, args, kw):
    n = E.ext_name
    if len(args) == 1 and not kw:
        v = strip_seq(E.seqval(args[0], st))
        if isinstance(v, T) and v.op in ('sorted', 'setof'):
            v = v.args[0]
        if isinstance(v, Tup) and v.items and all(isinstance(x, K) for x in v.items):
            f = min if n == 'min' else max
            return [(st, K(f(x.v for x in v.items)))]
        return [(st, T(n, v))]
    if all(is_num(a) for a in args):
        return [(st, K((min if n == 'min' else max)(a.v for a in args)))]
    return [(st, T(n + 'of', *sorted(args, key=repr)))]


@model('builtins.sum')
def b_sum(E, st, args, kw):
    it = E.fixed_items(args[0], st)
    if it is not None and all(E.numeric(x, st) for x in it):
        r = args[1] if len(args) > 1 else K(0)
        for x in it:
            r = lin_add(r, x)
        return [(st, r)]
    return [(st, T('sum', E.seqval(args[0], st)))]


@model('builtins.abs', 'builtins.round', 'builtins.ord', 'builtins.chr', 'builtins.hash', 'builtins.id')
def b_pure(E, st, args, kw):
    n = E.ext_name
    if all(isinstance(a, K) for a in args) and n in ('abs', 'round', 'ord', 'chr') and not kw:
        try:
            return [(st, K(getattr(_bi, n)(*[a.v for a in args])))]
        except Exception:
            pass
    return [(st, T(n, *args))]


@model('builtins.divmod')
def b_divmod(E, st, args, kw):
    if len(args) == 2 and all(isinstance(x, K) and isinstance(x.v, int) for x in args) and args[1].v:
        return [(st, Tup([K(x) for x in divmod(args[0].v, args[1].v)]))]
    return [(st, Tup([T('floordiv', *args), T('mod', *args)]))]


@model('builtins.slice')
def b_slice(E, st, args, kw):
    a = list(args)
    if len(a) == 1:
        a = [NONE, a[0]]
    while len(a) < 3:
        a.append(NONE)
    return [(st, T('slice', *a))]


@model('builtins.iter')
def b_iter(E, st, args, kw):
    if isinstance(args[0], Ref) and st.get(args[0]).kind == 'inst' and st.get(args[0]).cls in ('generator', 'file'):
        return [(st, args[0])]
    g = Inst('generator')
    g.attrs = {'gen': E.seqval(args[0], st), 'n': K(0)}
    return [(st, st.alloc(g))]


def eager_next(E, st, g, o, n, args):
    if E.positions_differ(st, o.attrs['snaps'].items[min(n.v, len(o.attrs['snaps'].items) - 1)]):
        if n == K(0):
            # not started yet: it starts where the file is now
            t = o.attrs['call']
            r = E.eager_gen(o.attrs['fn'], dict(t.args[1]), t, st)
            out = []
            for s, g2 in r or []:
                s.heap[g.id] = s.get(g2)
                out += b_next(E, s, [g] + list(args[1:]), {})
            if r is not None:
                return out
        st.taint = st.taint + ('generator resumed at another file position',)
    E.emit('next', st, gen=g, n=n)
    items = o.attrs['gen'].items
    if E.gen_closed(o, st):
        E.emit('closedread', st, file=g)
        E.raise_(st, 'ValueError')
        return []
    if n.v < len(items):
        st.mut(g).attrs['n'] = K(n.v + 1)
        E.gen_at(st, o.attrs['snaps'].items[n.v + 1])
        return [(st, items[n.v])]
    E.gen_at(st, o.attrs['snaps'].items[-1])
    if len(args) > 1 and 'end' not in o.attrs:
        return [(st, args[1])]
    E.raise_(st, o.attrs['end'].v if 'end' in o.attrs else 'StopIteration')
    return []


@model('builtins.next')
def b_next(E, st, args, kw):
    g = args[0]
    if isinstance(g, Comp):
        return [(st, T('first', g))]
    if isinstance(g, Ref) and st.get(g).kind == 'inst' and st.get(g).cls == 'generator':
        o = st.get(g)
        n = o.attrs['n']
        if 'snaps' in o.attrs and isinstance(n, K):
            return eager_next(E, st, g, o, n, args)
        v = E.elem_at(o.attrs['gen'], n, st)
        E.emit('next', st, gen=g, n=n)
        st.mut(g).attrs['n'] = lin_add(n, K(1))
        if len(args) > 1:
            return [(st, T('nextdefault', v, args[1]))]
        s = E.implicit(st, T('next', o.attrs['gen'], n), 'StopIteration')
        return [(s, v)] if s is not None else []
    if isinstance(g, Ref) and st.get(g).kind == 'inst' and st.get(g).cls == 'file':
        return call_method(E, st, g, 'readline', [], {})
    n = E.cur.args[0] if isinstance(E.cur, _ast.Call) and E.cur.args else None
    if isinstance(n, _ast.GeneratorExp) or isinstance(n, _ast.Call) and isinstance(n.func, _ast.Name) and n.func.id in (
            'iter', 'map', 'zip', 'filter', 'reversed', 'enumerate'):
        it = E.fixed_items(g, st)       # a fresh iterator of known items
        if it is not None:
            if it:
                return [(st, it[0])]
            if len(args) > 1:
                return [(st, args[1])]
            E.raise_(st, 'StopIteration')
            return []
    return [(st, T('next', g))]


@model('builtins.callable')
def b_callable(E, st, args, kw):
    return [(st, TRUE if isinstance(args[0], (Fn, Cls, Bound, Ext)) else T('truthy', T('callable', args[0])))]


@model('collections.namedtuple')
def c_namedtuple(E, st, args, kw):
    f = args[1]
    if isinstance(f, K) and isinstance(f.v, str):
        f = Tup([K(x) for x in f.v.replace(',', ' ').split()])
    it = E.fixed_items(f, st)
    fields = Tup(it) if it is not None else E.seqval(f, st)
    t = T('ntclass', args[0], fields)
    if isinstance(fields, Tup) and all(isinstance(x, K) for x in fields.items):
        return [(st, t)]
    s = E.implicit(st, t, 'ValueError')
    return [(s, t)] if s is not None else []


@model('functools.partial')
def f_partial(E, st, args, kw):
    return [(st, T('partial', args[0], tuple(args[1:]), tuple(sorted(kw.items()))))]


# ------------------------------------------------------------------ operator, struct, files
for _o, _c in (('eq', '=='), ('ne', '!='), ('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>='), ('is_', 'is'),
               ('is_not', 'is not')):
    MODELS['operator.' + _o] = (lambda c: lambda E, st, a, kw: compare(E, st, c, a[0], a[1]))(_c)
MODELS['operator.contains'] = lambda E, st, a, kw: compare(E, st, 'in', a[1], a[0])
MODELS['operator.and_'] = lambda E, st, a, kw: binop(E, st, 'BitAnd', a[0], a[1])
MODELS['operator.or_'] = lambda E, st, a, kw: binop(E, st, 'BitOr', a[0], a[1])
MODELS['operator.iand'] = lambda E, st, a, kw: inplace(E, st, 'BitAnd', a[0], a[1])


@model('struct.unpack')
def s_unpack(E, st, args, kw):
    t = T('unpack', *args)
    E.emit('unpackcall', st, fmt=args[0], data=args[1])
    s = E.implicit(st, t, 'Exception')
    return [(s, t)] if s is not None else []


@model('struct.unpack_from')
def s_unpack_from(E, st, args, kw):
    fmt, d = args[:2]
    off = args[2] if len(args) > 2 else kw.get('offset', K(0))
    try:
        n = _struct.calcsize(fmt.v)
    except Exception:
        n = None
    if n is None or not isinstance(off, K):
        return [(st, Unk('unpack_from'))]
    out = []
    for s, x in getitem(E, st, d, T('slice', off, K(off.v + n), NONE)):
        out += E.models['struct.unpack'](E, s, [fmt, x], {})
    return out


@model('struct.iter_unpack')
def s_iter_unpack(E, st, args, kw):
    fmt, d = args[:2]
    ln = E.length(d, st)
    try:
        n = _struct.calcsize(fmt.v)
    except Exception:
        n = None
    if not n or not isinstance(ln, K):
        return [(st, Unk('iter_unpack'))]
    if ln.v % n:
        E.raise_(st, 'struct.error')
        return []
    res = [(st, [])]
    for i in range(0, ln.v, n):
        nxt = []
        for s, vs in res:
            for s2, x in getitem(E, s, d, T('slice', K(i), K(i + n), NONE)):
                nxt += [(s3, vs + [y]) for s3, y in E.models['struct.unpack'](E, s2, [fmt, x], {})]
        res = nxt
    return [(s, s.alloc(ListObj('list', [('one', v) for v in vs]))) for s, vs in res]


@model('struct.Struct')
def s_struct(E, st, args, kw):
    return [(st, T('structobj', args[0]))]


@model('struct.calcsize')
def s_calcsize(E, st, args, kw):
    if isinstance(args[0], K):
        try:
            return [(st, K(_struct.calcsize(args[0].v)))]
        except Exception:
            pass
    return [(st, T('calcsize', args[0]))]


def new_file(st, label, cls='file', pos=None, name=NONE):
    f = Inst(cls, label)
    f.attrs = {'$closed': FALSE, '$pos': pos if pos is not None else K(0), '$name': name}
    return st.alloc(f)


@model('builtins.open', 'io.open', 'codecs.open')
def f_open(E, st, args, kw):
    mode = kw.get('mode', args[1] if len(args) > 1 else K('r'))
    t = T('open', args[0] if args else kw.get('file', Unk('file')), mode)
    s = E.implicit(st, t, 'Exception')
    if s is None:
        return []
    r = new_file(s, 'opened@%s' % E.site())
    E.emit('open', s, file=r, name=args[0] if args else None, mode=mode, kw=kw)
    return [(s, r)]


@model('zipfile.ZipFile')
def f_zip(E, st, args, kw):
    s = E.implicit(st, T('ZipFile', *args), 'Exception')
    if s is None:
        return []
    r = new_file(s, 'zip@%s' % E.site(), 'zip')
    E.emit('open', s, file=r, name=args[0], mode=kw.get('mode', args[1] if len(args) > 1 else K('r')), kw=kw)
    return [(s, r)]


@model('mmap.mmap')
def f_mmap(E, st, args, kw):
    s = E.implicit(st, T('mmap', *args[:2]), 'Exception')
    if s is None:
        return []
    r = new_file(s, 'mmap@%s' % E.site(), 'mmap')
    E.emit('open', s, file=r, name=None, mode=K('mmap'), kw=kw)
    return [(s, r)]


@model('contextlib.closing')
def f_closing(E, st, args, kw):
    o = Inst('closing')
    o.attrs = {'obj': args[0]}
    return [(st, st.alloc(o))]


@model('contextlib.ExitStack')
def f_exitstack(E, st, args, kw):
    return [(st, Unk('ExitStack'))]


def re_fold(fn):
    """regular expressions on constants"""
    def f(E, st, args, kw):
        if not kw and all(isinstance(a, K) and isinstance(a.v, (str, bytes)) for a in args) and \
                len(args) == {'sub': 3, 'escape': 1}.get(fn, 2):
            try:
                m = getattr(_re, fn)(*[a.v for a in args])
            except (_re.error, TypeError) as e:
                E.raise_(st, 're.error' if isinstance(e, _re.error) else 'TypeError')
                return []
            if m is None:
                return [(st, NONE)]
            if isinstance(m, (str, bytes)):
                return [(st, K(m))]
            if isinstance(m, list):
                return [(st, st.alloc(ListObj('list', [('one', Tup([K(y) for y in x]) if isinstance(x, tuple) else K(x))
                                                       for x in m])))]
            return [(st, T('rematch', K(m.group(0)), *([K(g) for g in m.groups()]
                                                        + [Tup([K(k), K(v)]) for k, v in m.groupdict().items()])))]
        return default_ext(E, st, 're.' + fn, args, kw)
    return f


def match_term(m):
    return T('rematch', K(m.group(0)), *([K(g) for g in m.groups()] + [Tup([K(k), K(v)]) for k, v in m.groupdict().items()]))


def re_sub_call(E, st, pat, args):
    """pattern.sub(f or text, text) on constants, f called on each match; None when not decided"""
    if not pat or len(args) != 2 or not isinstance(pat[0], K) or not isinstance(args[1], K) or \
            not isinstance(args[1].v, type(pat[0].v)) or not isinstance(args[1].v, (str, bytes)):
        return None
    flags = 0
    for a in pat[1:]:
        if not isinstance(a, Ext) or not a.name.startswith('re.') or not isinstance(getattr(_re, a.name[3:], None), int):
            return None
        flags |= getattr(_re, a.name[3:])
    try:
        rx = _re.compile(pat[0].v, flags)
        if isinstance(args[0], K) and isinstance(args[0].v, (str, bytes)):
            return [(st, K(rx.sub(args[0].v, args[1].v)))]
    except (_re.error, TypeError, ValueError):
        return None
    if not isinstance(args[0], (Fn, Bound)):
        return None
    out, at, text = [], 0, args[1].v
    for m in rx.finditer(text):
        rs = E.call(args[0], [match_term(m)], {}, st)
        if len(rs) != 1 or not isinstance(rs[0][1], K) or not isinstance(rs[0][1].v, type(text)):
            return None
        st = rs[0][0]
        out += [text[at:m.start()], rs[0][1].v]
        at = m.end()
    out.append(text[at:])
    return [(st, K(text[:0].join(out)))]


def const_order(it, reverse=False):
    """the order of items told apart by the constants they start with, or None"""
    keys = []
    for x in it:
        if isinstance(x, K):
            keys.append((x.v, None))
        elif isinstance(x, Tup):
            k = []
            for y in x.items:
                if isinstance(y, Tup) and all(isinstance(z, K) for z in y.items):
                    y = K(tuple(z.v for z in y.items))
                if not isinstance(y, K):
                    k.append(None)
                    break
                k.append(y.v)
            else:
                k.append(True)
            keys.append(tuple(k))
        else:
            return None
    if len(set(isinstance(x, K) for x in it)) > 1:
        return None
    pre = [k[:-1] for k in keys]
    for i in range(len(keys)):
        for j in range(i):
            a, b = pre[i], pre[j]
            n = min(len(a), len(b))
            if a[:n] == b[:n] and not (keys[i][-1] and keys[j][-1]) and not isinstance(it[i], K):
                return None
    try:
        return sorted(range(len(it)), key=lambda i: pre[i], reverse=reverse)
    except TypeError:
        return None


for _fn in ('match', 'fullmatch', 'search', 'findall', 'sub', 'split', 'escape'):
    MODELS['re.' + _fn] = re_fold(_fn)


def path_fold(mod, fn):
    """paths of constants; a backslash is left to the system for os.path"""
    def f(E, st, args, kw):
        if not kw and args and all(isinstance(a, K) and isinstance(a.v, str) for a in args) and \
                (fn == 'join' or len(args) == 1) and (mod == 'posixpath' or not any('\\' in a.v for a in args)):
            r = getattr(_posix, fn)(*[a.v for a in args])
            return [(st, Tup([K(x) for x in r]) if isinstance(r, tuple) else K(r))]
        return default_ext(E, st, mod + '.' + fn, args, kw)
    return f


for _fn in ('join', 'normpath', 'basename', 'dirname', 'split', 'splitext', 'isabs'):
    for _md in ('os.path', 'posixpath'):
        if _md + '.' + _fn not in MODELS:
            MODELS[_md + '.' + _fn] = path_fold(_md, _fn)


def match_method(E, st, o, name, args, kw):
    groups = [x for x in o.args if isinstance(x, K)]
    named = {x.items[0].v: x.items[1] for x in o.args if isinstance(x, Tup)}
    if name == 'groups' and not args and not kw:
        return [(st, Tup(groups[1:]))]
    if name == 'groupdict' and not args:
        d = DictObj()
        d.ents = tuple(('one', K(k), v) for k, v in named.items())
        return [(st, st.alloc(d))]
    if name in ('group', '__getitem__') and all(isinstance(a, K) for a in args):
        out = []
        for a in (args or [K(0)]):
            if isinstance(a.v, int) and 0 <= a.v < len(groups):
                out.append(groups[a.v])
            elif a.v in named:
                out.append(named[a.v])
            else:
                E.raise_(st, 'IndexError')
                return []
        return [(st, out[0] if len(out) == 1 else Tup(out))]
    return [(st, Unk('match method'))]


PURE_EXT = ('re.', 'os.path.', 'posixpath.', 'locale.', 'string.', 'math.', 'datetime.', 'numpy.', 'operator.', 'itertools.')


def default_ext(E, st, name, args, kw):
    short = name.split('.')[-1]
    cls = getattr(_bi, short, None) if name.startswith('builtins.') else None
    if isinstance(cls, type) and issubclass(cls, BaseException):
        return [(st, T('exc', short, tuple(args)))]
    if name.startswith('builtins.') and name.count('.') == 2:
        # unbound method of a builtin type: dict.update(d, x)
        _, ty, meth = name.split('.')
        if args:
            return call_method(E, st, args[0], ty + '.' + meth, args[1:], kw)
    fa = tuple(E.freeze_deep(a, st) for a in args)
    out = kw.pop('out', None) if name.startswith('numpy.') else None
    if out is not None and arr(st, out):
        arr_write(E, st, out, 'out=')
        return [(st, out)]
    fk = tuple(sorted((k, E.freeze_deep(v, st)) for k, v in kw.items()))
    t = T('call', name, fa, fk)
    if any(isinstance(x, Unk) for a in args for x in walk(a)):
        t = T('call', name, fa, fk)
    s = E.implicit(st, t, 'Exception')
    if s is None:
        return []
    if name.startswith('numpy.') and any(arr(st, a) for a in args):
        a = next(a for a in args if arr(st, a))
        return [(s, new_array(s, T('call', name, fa, fk), T('len', t)))]
    return [(s, t)]


# ------------------------------------------------------------------ comparisons and arithmetic
def norm_keys(v):
    """For equality of key collections: sorted(keys) == set(keys) == keys."""
    while isinstance(v, T) and v.op in ('setof', 'sorted') and isinstance(v.args[0], T) and \
            v.args[0].op in ('keys', 'setof', 'sorted'):
        v = v.args[0]
    return v


def compare(E, st, op, a, b):
    if isinstance(a, Ref) and st.get(a).kind == 'inst' and isinstance(st.get(a).cls, ClassInfo):
        m = {'==': '__eq__', '!=': '__ne__', '<': '__lt__', '>': '__gt__'}.get(op)
        fi = m and E.p.find_method(st.get(a).cls, m)
        if fi:
            return E.call_fn(Fn(fi), [a, b], {}, st)
    if op in ('in', 'not in') and isinstance(b, Ref) and st.get(b).kind == 'inst' and \
            isinstance(st.get(b).cls, ClassInfo):
        fi = E.p.find_method(st.get(b).cls, '__contains__')
        if fi:
            out = []
            for s, v in E.call_fn(Fn(fi), [b, a], {}, st):
                out.append((s, v if op == 'in' else E.neg(E.truthval(v, s))))
            return out
    if op in ('==', '!='):
        sa, sb = E.const_set(a, st), E.const_set(b, st)
        if sa is not None and sb is not None:
            return [(st, K((sa == sb) == (op == '==')))]
        if isinstance(a, Ref) and not arr(st, a):
            o = st.get(a)
            if isinstance(o, ListObj):
                a = E.listval(a, st) if o.segs else a
        if isinstance(b, Ref) and not arr(st, b):
            o = st.get(b)
            if isinstance(o, ListObj):
                b = E.listval(b, st) if o.segs else b
        a, b = norm_keys(a), norm_keys(b)
        if isinstance(a, T) and a.op == 'len' and isinstance(b, T) and b.op == 'len':
            pass
    return [(st, E.cmp(op, a, b, st))]


def unary(E, st, op, v):
    if op == 'USub':
        if is_num(v):
            return [(st, K(-v.v))]
        if arr(st, v):
            o = st.get(v)
            return [(st, new_array(st, T('neg', o.elem), o.length, o.dk))]
        return [(st, lin_scale(v, -1))]
    if op == 'UAdd':
        return [(st, v)]
    if op == 'Invert':
        if arr(st, v):
            o = st.get(v)
            return [(st, new_array(st, bool_term('not', o.elem), o.length, 'b'))]
        if isinstance(v, K):
            return [(st, K(~v.v))]
        return [(st, T('invert', v))]
    return [(st, Unk('unary'))]


_FOLD = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mult': lambda a, b: a * b,
         'Div': lambda a, b: a / b, 'FloorDiv': lambda a, b: a // b, 'Mod': lambda a, b: a % b,
         'Pow': lambda a, b: a ** b, 'BitAnd': lambda a, b: a & b, 'BitOr': lambda a, b: a | b,
         'BitXor': lambda a, b: a ^ b, 'LShift': lambda a, b: a << b, 'RShift': lambda a, b: a >> b}
_NAMES = {'Div': 'div', 'FloorDiv': 'floordiv', 'Mod': 'mod', 'Pow': 'pow', 'BitAnd': 'bitand', 'BitOr': 'bitor',
          'BitXor': 'bitxor', 'LShift': 'lshift', 'RShift': 'rshift', 'MatMult': 'matmul'}
_SETOPS = {'Sub': 'setsub', 'BitAnd': 'setand', 'BitOr': 'setor', 'BitXor': 'setxor'}


def const_setop(E, st, op, a, b):
    x = E.const_set(a, st)
    it = E.fixed_items(b, st)
    if x is None or it is None or not all(isinstance(y, K) for y in it):
        return None
    y = frozenset(it)
    z = {'setsub': x - y, 'setand': x & y, 'setor': x | y, 'setxor': x ^ y}[op]
    return st.alloc(ListObj('set', [('one', v) for v in sorted(z, key=repr)]))


def binop(E, st, op, a, b):
    for h in E.binop_hooks:
        r = h(E, st, op, a, b)
        if r is not None:
            return r
    if isinstance(a, K) and isinstance(b, K):
        if op == 'Mod' and isinstance(a.v, (str, bytes)):
            try:
                return [(st, K(a.v % b.v))]
            except Exception:
                return [(st, T('fmt', (a, b)))]
        if not (op in ('Mult', 'Pow', 'LShift') and any(isinstance(x.v, int) and abs(x.v) > 10 ** 6 for x in (a, b))):
            try:
                return [(st, K(_FOLD[op](a.v, b.v)))]
            except Exception:
                return [(st, Unk('fold'))]
    if op == 'Mod' and isinstance(a, K) and isinstance(a.v, (str, bytes)) and isinstance(b, Tup) and \
            all(isinstance(x, K) for x in b.items):
        try:
            return [(st, K(a.v % tuple(x.v for x in b.items)))]
        except Exception:
            pass
    if arr(st, a) or arr(st, b):
        ea, eb = E.elem_of(a, st), E.elem_of(b, st)
        ln = next(st.get(x).length for x in (a, b) if arr(st, x))
        if op == 'BitAnd':
            return [(st, new_array(st, bool_term('and', ea, eb), ln, 'b'))]
        if op == 'BitOr':
            return [(st, new_array(st, bool_term('or', ea, eb), ln, 'b'))]
        return [(st, new_array(st, T(op.lower(), ea, eb), ln))]
    ta, tb = E.typeof(a, st), E.typeof(b, st)
    if op == 'Add':
        for x in (a, b):
            pass
        if isinstance(a, Tup) and isinstance(b, Tup):
            return [(st, Tup(a.items + b.items))]
        if isinstance(a, Ref) and isinstance(st.get(a), ListObj):
            segs = st.get(a).segs
            bi = E.fixed_items(b, st)
            if isinstance(b, Ref) and isinstance(st.get(b), ListObj):
                segs = segs + st.get(b).segs
            elif bi is not None:
                segs = segs + tuple(('one', x) for x in bi)
            else:
                segs = segs + (('seq', E.seqval(b, st)),)
            return [(st, st.alloc(ListObj('list', segs)))]
        seqt = ('str', 'bytes', 'list', 'tuple')
        if ta in seqt or tb in seqt:
            fa, fb = E.freeze_deep(a, st), E.freeze_deep(b, st)
            parts = []
            for x in (fa, fb):
                parts += list(x.args) if isinstance(x, T) and x.op == 'concat' else [x]
            return [(st, T('concat', *parts))]
        if isinstance(a, Unk) or isinstance(b, Unk):
            return [(st, unk_join(a, b))]
        return [(st, lin_add(a, b))]
    if ta == 'set' or tb == 'set' or (isinstance(a, T) and a.op in ('keys', 'setof')) or \
            (isinstance(b, T) and b.op in ('keys', 'setof')):
        if op in _SETOPS:
            r = const_setop(E, st, _SETOPS[op], a, b)
            if r is not None:
                return [(st, r)]
            x = E.listval(a, st) if isinstance(a, Ref) and isinstance(st.get(a), ListObj) else a
            y = E.listval(b, st) if isinstance(b, Ref) and isinstance(st.get(b), ListObj) else b
            return [(st, T(_SETOPS[op], x, y))]
    if isinstance(a, Unk) or isinstance(b, Unk):
        return [(st, unk_join(a, b))]
    if op == 'Sub':
        return [(st, lin_add(a, b, -1))]
    if op == 'Mult':
        if ta in ('str', 'bytes', 'list', 'tuple') or tb in ('str', 'bytes', 'list', 'tuple'):
            q, n = (a, b) if ta in ('list', 'tuple') else (b, a)
            if isinstance(n, K) and isinstance(n.v, int) and n.v <= 64:
                if isinstance(q, Tup):
                    return [(st, Tup(tuple(q.items) * n.v))]
                if isinstance(q, Ref) and isinstance(st.get(q), ListObj) and st.get(q).kind == 'list' \
                        and all(sg[0] == 'one' for sg in st.get(q).segs):
                    return [(st, st.alloc(ListObj('list', st.get(q).segs * n.v)))]
            return [(st, T('repeat', E.freeze_deep(a, st), E.freeze_deep(b, st)))]
        return [(st, mul(a, b))]
    if op == 'Mod' and ta in ('str', 'bytes'):
        return [(st, T('fmt', (a, E.freeze_deep(b, st))))]
    return [(st, T(_NAMES.get(op, op), E.freeze_deep(a, st), E.freeze_deep(b, st)))]


def unk_join(*vs):
    deps = set()
    for v in vs:
        for x in walk(v):
            if isinstance(x, Unk):
                deps |= x.deps
            else:
                deps.add(x) if isinstance(x, T) and x.op == 'at' else None
    return Unk('op', deps)


def inplace(E, st, op, old, v):
    if arr(st, old):
        o = st.get(old)
        ev = E.elem_of(v, st)
        e = {'BitAnd': lambda: bool_term('and', o.elem, ev), 'BitOr': lambda: bool_term('or', o.elem, ev)}.get(
            op, lambda: T(op.lower(), o.elem, ev))()
        arr_write(E, st, old, 'in-place ' + op, value=v, elem=e)
        return [(st, old)]
    if isinstance(old, Ref):
        o = st.get(old)
        if isinstance(o, ListObj) and o.kind == 'list' and op == 'Add':
            return [(s, old) for s, _ in call_method(E, st, old, 'extend', [v], {})]
        if isinstance(o, ListObj) and o.kind == 'set' and op == 'BitOr':
            return [(s, old) for s, _ in call_method(E, st, old, 'update', [v], {})]
        if o.kind == 'inst' and isinstance(o.cls, ClassInfo):
            m = {'BitOr': '__ior__', 'Add': '__iadd__', 'BitAnd': '__iand__', 'Sub': '__isub__'}.get(op)
            fi = m and E.p.find_method(o.cls, m)
            if fi:
                return E.call_fn(Fn(fi), [old, v], {}, st)
        if op == 'BitOr' and (isinstance(o, DictObj) or (o.kind == 'inst' and o.d is not None)):
            return [(s, old) for s, _ in dict_update(E, st, old, [v], {})]
    return binop(E, st, op, old, v)


# ------------------------------------------------------------------ attributes
def del_attr(E, st, o, name):
    if isinstance(o, Ref) and st.get(o).kind == 'inst' and isinstance(st.get(o).cls, ClassInfo):
        fi = E.p.find_method(st.get(o).cls, '__delattr__')
        if fi:
            return E.call_fn(Fn(fi), [o, K(name)], {}, st)
        return raw_delattr(E, st, o, name)
    E.emit('delattr', st, obj=o, name=name)
    return [(st, NONE)]


def raw_delattr(E, st, o, name):
    E.emit('delattr', st, obj=o, name=name)
    ob = st.get(o)
    if name not in ob.attrs and not ob.open:
        E.raise_(st, 'AttributeError')
        return []
    st.mut(o).attrs.pop(name, None)
    return [(st, NONE)]


# ------------------------------------------------------------------ the attribute dict of an instance
def is_vars(v):
    return isinstance(v, T) and v.op == 'vars'


def vars_get(E, st, o, name, default=None):
    """-> [(state, value)], KeyError when there is neither attribute nor default"""
    o = o.args[0]
    ob = st.get(o)
    if not isinstance(name, K):
        st.taint = st.taint + (E.site(),)
        return [(st, Unk('attribute dict'))]
    if name.v in ob.attrs:
        return [(st, ob.attrs[name.v])]
    if ob.open:
        v = Sym('%s.%s' % (ob.label, name.v))
        st.mut(o).attrs[name.v] = v
        return [(st, v)]
    if default is not None:
        return [(st, default)]
    E.raise_(st, 'KeyError')
    return []


def vars_set(E, st, o, name, v):
    o = o.args[0]
    if not isinstance(name, K):
        E.emit('dynsetattr', st, obj=o)
        st.taint = st.taint + (E.site(),)
        return [(st, NONE)]
    old = st.get(o).attrs.get(name.v)
    st.mut(o).attrs[name.v] = v
    E.emit('setattr', st, obj=o, name=name.v, value=v, old=old)
    return [(st, NONE)]


def vars_del(E, st, o, name):
    o = o.args[0]
    if not isinstance(name, K):
        st.taint = st.taint + (E.site(),)
        return [(st, NONE)]
    ob = st.get(o)
    if name.v not in ob.attrs and not ob.open:
        E.raise_(st, 'KeyError')
        return []
    E.emit('delattr', st, obj=o, name=name.v)
    st.mut(o).attrs.pop(name.v, None)
    return [(st, NONE)]


def vars_snapshot(E, st, o):
    ob = st.get(o.args[0])
    if ob.open or any(k.startswith('$') for k in ob.attrs):
        return None
    d = DictObj()
    d.ents = tuple(('one', K(k), v) for k, v in ob.attrs.items())
    return st.alloc(d)


def vars_method(E, st, o, name, args, kw):
    if name == 'get' and args:
        return vars_get(E, st, o, args[0], args[1] if len(args) > 1 else NONE)
    if name == '__getitem__' and len(args) == 1:
        return vars_get(E, st, o, args[0])
    if name == '__setitem__' and len(args) == 2:
        return vars_set(E, st, o, *args)
    if name == '__contains__' and len(args) == 1:
        return [(st, E.contains(args[0], o, st))]
    if name == 'setdefault' and args:
        if isinstance(args[0], K) and args[0].v not in st.get(o.args[0]).attrs and not st.get(o.args[0]).open:
            v = args[1] if len(args) > 1 else NONE
            return [(s, v) for s, _ in vars_set(E, st, o, args[0], v)]
        return vars_get(E, st, o, args[0])
    if name == 'pop' and args:
        out = []
        for s, v in vars_get(E, st, o, args[0], args[1] if len(args) > 1 else None):
            if isinstance(args[0], K) and args[0].v in s.get(o.args[0]).attrs:
                out += [(s2, v) for s2, _ in vars_del(E, s, o, args[0])]
            else:
                out.append((s, v))
        return out
    if name == 'update':
        pairs = [(K(k), v) for k, v in kw.items()]
        if args:
            d = args[0]
            if is_vars(d):
                d = vars_snapshot(E, st, d)
            p = payload(st, d) if isinstance(d, Ref) else None
            do = st.get(p) if p is not None else None
            if do is None or do.base is not None or not all(e[0] == 'one' and isinstance(e[1], K) for e in do.ents):
                E.emit('dynsetattr', st, obj=o.args[0])
                st.taint = st.taint + (E.site(),)
                return [(st, NONE)]
            pairs = [(e[1], e[2]) for e in do.ents] + pairs
        for k, v in pairs:
            vars_set(E, st, o, k, v)
        return [(st, NONE)]
    if name in ('keys', 'items', 'values', 'copy', '__len__', '__iter__'):
        d = vars_snapshot(E, st, o)
        if d is not None:
            if name == 'copy':
                return [(st, d)]
            return call_method(E, st, d, name, args, kw)
        return [(st, Unk('attribute dict'))]
    st.taint = st.taint + (E.site(),)
    return [(st, Unk('attribute dict'))]


@model('builtins.vars')
def b_vars(E, st, args, kw):
    if args and isinstance(args[0], Ref) and st.get(args[0]).kind == 'inst' and \
            isinstance(st.get(args[0]).cls, ClassInfo):
        return [(st, T('vars', args[0]))]
    return [(st, Unk('vars'))]


def obj_getattr(E, st, o, ob, name):
    if ob.kind == 'array':
        if name == 'dtype':
            return [(st, T('dtype', o, K(ob.dk)))]
        if name == 'ndim':
            return [(st, ob.ndim if isinstance(ob.ndim, V) else K(ob.ndim))]
        if name == 'size':
            return [(st, ob.length)]
        if name == 'shape':
            return [(st, Tup([ob.length]) if ob.ndim == 1 else T('shape', ob.length))]
        if name in ('T', 'flat', 'real'):
            return [(st, new_array(st, ob.elem, ob.length, ob.dk, '', o, ob.ndim))]
        return [(st, Bound(T('method', name), o))]
    return [(st, Bound(T('method', name), o))]


def term_getattr(E, st, o, name):
    if is_vars(o):
        return [(st, Bound(T('method', name), o))]
    if isinstance(o, T):
        if o.op == 'slice' and name in ('start', 'stop', 'step'):
            return [(st, o.args[('start', 'stop', 'step').index(name)])]
        if o.op == 'dtype' and name == 'kind':
            dk = o.args[1].v
            if dk is not None and dk != '?':
                return [(st, K(dk))]
            return [(st, T('dtypekind', o.args[0]))]
        if o.op == 'namedtuple' and isinstance(o.args[0].args[1], Tup):
            names = [k.v for k in o.args[0].args[1].items if isinstance(k, K)]
            if name in names:
                i = names.index(name)
                if i < len(o.args[1].items):
                    return [(st, o.args[1].items[i])]
                kw = dict(o.args[2])
                if name in kw:
                    return [(st, kw[name])]
    if isinstance(o, K) and name in ('__name__',):
        return [(st, Unk('name'))]
    ty = E.typeof(o, st)
    py = {'int': int, 'str': str, 'bytes': bytes, 'list': list, 'tuple': tuple, 'dict': dict, 'set': set,
          'float': float, 'bool': bool, 'NoneType': type(None), 'range': range}
    if ty in py and not hasattr(py[ty], name):
        E.raise_(st, 'AttributeError')
        return []
    t = T('attr', o, name)
    if ty not in py and ty not in ('function', 'object'):
        s = E.implicit(st, T('getattr', o, name), 'AttributeError') if E.handled('AttributeError') else st
        return [(s, t)] if s is not None else []
    return [(st, t)]


FILEATTRS = {'name': '$name', 'closed': '$closed'}


def ext_inst_getattr(E, st, o, ob, name):
    if ob.cls in ('file', 'zip', 'mmap') and name in FILEATTRS and FILEATTRS[name] in ob.attrs:
        v = ob.attrs[FILEATTRS[name]]
        if name == 'name' and '$noname' in ob.attrs:
            E.raise_(st, 'AttributeError')
            return []
        if name == 'name' and E.handled('AttributeError') and ob.label == 'caller':
            s = E.implicit(st, T('getattr', o, name), 'AttributeError')
            return [(s, v)] if s is not None else []
        return [(st, v)]
    if ob.cls == 'file' and name in ('mode', 'encoding', 'errors', 'newlines'):
        typ = ob.attrs.get('$typ')
        if name == 'mode':
            v = K('rb' if typ.v == 'bytes' else 'r') if isinstance(typ, K) else Sym('mode of %s' % ob.label, 'str')
        elif typ == K('bytes'):
            E.raise_(st, 'AttributeError')
            return []
        else:
            v = Sym('%s of %s' % (name, ob.label), 'str') if name != 'newlines' else Unk('newlines')
        if ob.label != 'opened':        # in-memory streams have no mode
            st = E.implicit(st, T('getattr', o, name), 'AttributeError')
        return [(st, v)] if st is not None else []
    return [(st, Bound(T('method', name), o))]


# ------------------------------------------------------------------ context managers
def enter(E, st, m):
    if isinstance(m, Ref) and st.get(m).kind == 'inst':
        o = st.get(m)
        if isinstance(o.cls, ClassInfo):
            fi = E.p.find_method(o.cls, '__enter__')
            if fi:
                return E.call_fn(Fn(fi), [m], {}, st)
        if o.cls == 'closing':
            return [(st, o.attrs['obj'])]
        return [(st, m)]
    return [(st, T('enter', m))]


def leave(E, st, m, kind, v):
    """-> outcomes"""
    if isinstance(m, Ref) and m.id in st.heap and st.get(m).kind == 'inst':
        o = st.get(m)
        if isinstance(o.cls, ClassInfo):
            fi = E.p.find_method(o.cls, '__exit__')
            if fi:
                if kind == 'raise':
                    args = [m, T('exctype', v.name), v.val if isinstance(v.val, V) else T('exc', v.name, ()),
                            Sym('traceback', 'object')]
                else:
                    args = [m, NONE, NONE, NONE]
                outs = []
                for s, r in E.call_fn(Fn(fi), args, {}, st):
                    if kind == 'raise':
                        t = E.truth(r, s)
                        if t is True:
                            E.emit('suppressed', s, exc=v)
                            outs.append(('next', s, None))
                            continue
                        if t is None:
                            s2 = s.copy()
                            outs.append(('next', s2, None))
                    outs.append((kind, s, v))
                return outs
        if o.cls in ('file', 'zip', 'mmap'):
            return [(kind, s, v) for s, _ in call_method(E, st, m, 'close', [], {})]
        if o.cls == 'closing':
            return [(kind, s, v) for s, _ in E.call(T('attr', o.attrs['obj'], 'close'), [], {}, st)] \
                if not isinstance(o.attrs['obj'], Ref) else \
                [(kind, s, v) for s, _ in call_method(E, st, o.attrs['obj'], 'close', [], {})]
    return [(kind, st, v)]


# ------------------------------------------------------------------ items
def payload(st, o):
    """Ref of the DictObj behind a dict or dict subclass instance, or None."""
    if isinstance(o, Ref):
        ob = st.get(o)
        if isinstance(ob, DictObj):
            return o
        if ob.kind == 'inst' and ob.d is not None:
            return ob.d
    return None


def other_keys(E, ref, lid, k):
    """Did the earlier iterations of the loop store under other keys only?  True if
    each stored under its own element of one sequence of distinct keys."""
    if not (isinstance(k, T) and k.op in ('key', 'item') and k.args[1] == It(lid)):
        return False
    if k.op == 'item' and not (isinstance(k.args[0], T) and k.args[0].op == 'sorted' and
                               isinstance(k.args[0].args[0], T) and k.args[0].args[0].op == 'keys'):
        return False
    n = 0
    for (_, l, _), sums in E.loopsums.items():
        if l == lid:
            for g, new, first in sums.get(ref.id, ()):
                for e in new:
                    n += 1
                    if e[0] != 'one' or e[1] != k:
                        return False
    return n > 0


def dict_get(E, st, ref, k):
    """-> (state list of (st, value)) for d[k], or missing"""
    d = st.get(ref)
    amb = False
    for e in reversed(d.ents):
        if e[0] == 'one':
            t = E.truth(E.cmp('==', e[1], k, st), st)
            if t is True:
                return [(st, e[2])]
            if t is None:
                amb = True
                break
        elif e[0] == 'loop' and other_keys(E, ref, e[1], k):
            continue
        elif e[0] == 'del':
            t = E.truth(E.cmp('==', e[1], k, st), st)
            if t is not False:
                amb = True
                break
        else:
            amb = True
            break
    if amb:
        if len(d.ents) == 1 and d.base is None and d.ents[0][0] == 'comp':
            c = d.ents[0][1]
            if len(c.src) == 1 and isinstance(c.elem, Tup):
                from .interp import match_index
                i = match_index(c.elem.items[0], It(c.src[0][1]), k)
                if i is not None and not c.guards:
                    from .values import subst
                    return [(st, subst(c.elem.items[1], {It(c.src[0][1]): i}))]
        return implicit_key(E, st, ref, k, T('item', E.dictval(ref, st), k))
    if d.base is None:
        if getattr(d, 'default', None) is not None:
            out = []
            for s, v in E.call(d.default, [], {}, st):
                dd = s.mut(ref)
                dd.ents = dd.ents + (('one', k, v),)
                out.append((s, v))
            return out
        E.raise_(st, 'KeyError')
        return []
    if k in d.lazy:
        return [(st, d.lazy[k])]
    out = implicit_key(E, st, ref, k, None)
    res = []
    for s, _ in out:
        dd = s.get(ref)
        fac = getattr(dd, 'factory', None)
        if fac is not None:
            v = fac(E, s, dd.base, k)
            s.mut(ref).lazy[k] = v
        else:
            v = T('item', dd.base, k)
        res.append((s, v))
    return res


def implicit_key(E, st, ref, k, v):
    c = E.contains(k, ref, st)
    t = E.truth(c, st)
    if t is True or (isinstance(k, T) and k.op == 'key') or (isinstance(k, T) and k.op in ('min', 'max')):
        return [(st, v)]
    if t is False:
        E.raise_(st, 'KeyError')
        return []
    if E.handled('KeyError') or E.handled('LookupError') or E.may_raise:
        r = st.copy()
        E.assume(c, False, r)
        E.raise_(r, 'KeyError', implicit=True)
        E.assume(c, True, st)
    return [(st, v)]


def getitem(E, st, o, k):
    for h in E.item_hooks:
        r = h(E, st, o, k)
        if r is not None:
            return r
    if is_vars(o):
        return vars_get(E, st, o, k)
    if isinstance(o, Ref):
        ob = st.get(o)
        if ob.kind == 'inst' and isinstance(ob.cls, ClassInfo):
            fi = E.p.find_method(ob.cls, '__getitem__')
            if fi:
                return E.call_fn(Fn(fi), [o, k], {}, st)
        p = payload(st, o)
        if p is not None:
            return dict_get(E, st, p, k)
        if isinstance(ob, ListObj):
            return list_item(E, st, o, k)
        if ob.kind == 'array':
            return arr_item(E, st, o, k)
        if ob.kind == 'inst' and ob.cls in ('mmap',):
            return [(st, T('item', o, k))]
        return [(st, Unk('item'))]
    if isinstance(o, K) and isinstance(k, K):
        try:
            return [(st, K(o.v[k.v]))]
        except Exception as e:
            E.raise_(st, type(e).__name__)
            return []
    if isinstance(k, T) and k.op == 'slice' and all(isinstance(x, K) for x in k.args):
        sl = slice(*[x.v for x in k.args])
        if isinstance(o, K) and isinstance(o.v, (str, bytes, tuple)):
            return [(st, K(o.v[sl]))]
        if isinstance(o, Tup):
            return [(st, Tup(o.items[sl]))]
        if isinstance(o, T) and o.op == 'namedtuple' and not o.args[2]:
            return [(st, Tup(o.args[1].items[sl]))]
    if isinstance(o, Tup) and isinstance(k, K) and not isinstance(k.v, int):
        E.raise_(st, 'TypeError')
        return []
    if isinstance(o, Tup) and isinstance(k, K) and isinstance(k.v, int):
        if -len(o.items) <= k.v < len(o.items):
            return [(st, o.items[k.v])]
        E.raise_(st, 'IndexError')
        return []
    if isinstance(o, Tup) and isinstance(k, (Sym, T)) and E.typeof(k, st) == 'bool' and len(o.items) == 2:
        out = []
        for s, b in E.branch(k, st):
            out.append((s, o.items[1 if b else 0]))
        return out
    if isinstance(o, T):
        if o.op == 'namedtuple' and isinstance(k, K) and isinstance(k.v, int) and not o.args[2]:
            if -len(o.args[1].items) <= k.v < len(o.args[1].items):
                return [(st, o.args[1].items[k.v])]
        if o.op == 'unpack' and isinstance(k, K):
            return [(st, T('field', o, k))]
        if o.op == 'sorted' and k == K(0):
            s = E.implicit(st, T('item', o, k), 'IndexError')
            return [(s, T('min', o.args[0]))] if s is not None else []
        if o.op == 'sorted' and k == K(-1):
            s = E.implicit(st, T('item', o, k), 'IndexError')
            return [(s, T('max', o.args[0]))] if s is not None else []
        if o.op == 'dictval' and o.args[0] is None and all(e[0] == 'one' for e in o.args[1]):
            for e in o.args[1]:
                if E.truth(E.cmp('==', e[1], k, st), st) is True:
                    return [(st, e[2])]
            if all(E.truth(E.cmp('==', e[1], k, st), st) is False for e in o.args[1]):
                E.raise_(st, 'KeyError')
                return []
        if o.op in ('enumerate', 'zip', 'range', 'seqtuple', 'seqlist', 'items', 'keys', 'values', 'elems') and \
                E.typeof(k, st) == 'int':
            s = E.implicit(st, T('item', o, k), 'IndexError')
            return [(s, E.elem_at(o, k, s))] if s is not None else []
    if isinstance(o, Comp) and E.typeof(k, st) == 'int' and not o.guards:
        return [(st, E.elem_at(o, k, st))]
    if isinstance(o, Unk):
        return [(st, Unk('item', o.deps))]
    t = T('item', o, E.freeze_deep(k, st))
    s = E.implicit(st, t, 'IndexError', 'KeyError', 'LookupError')
    return [(s, t)] if s is not None else []


def list_item(E, st, o, k):
    if isinstance(k, K) and not isinstance(k.v, int) or E.typeof(k, st) in ('str', 'bytes', 'float'):
        E.raise_(st, 'TypeError')
        return []
    it = E.fixed_items(o, st)
    if it is not None:
        if isinstance(k, K) and isinstance(k.v, int):
            if -len(it) <= k.v < len(it):
                return [(st, it[k.v])]
            E.raise_(st, 'IndexError')
            return []
        if isinstance(k, T) and k.op == 'slice' and all(isinstance(x, K) for x in k.args):
            sl = it[slice(*[x.v for x in k.args])]
            return [(st, st.alloc(ListObj('list', [('one', x) for x in sl])))]
    ob = st.get(o)
    if isinstance(k, K) and isinstance(k.v, int):
        segs = ob.segs
        if k.v >= 0 and len(segs) > k.v and all(s[0] == 'one' for s in segs[:k.v + 1]):
            return [(st, segs[k.v][1])]
        if k.v < 0 and len(segs) >= -k.v and all(s[0] == 'one' for s in segs[k.v:]):
            return [(st, segs[k.v][1])]
    lv = E.listval(o, st)
    if isinstance(k, T) and k.op == 'slice':
        if k.args[0] == NONE and k.args[1] == NONE and k.args[2] == NONE:
            return [(st, st.alloc(ListObj('list', ob.segs)))]
        if isinstance(k.args[0], K) and k.args[1] == NONE and k.args[2] == NONE and isinstance(k.args[0].v, int) \
                and 0 <= k.args[0].v <= len(ob.segs) and all(s[0] == 'one' for s in ob.segs[:k.args[0].v]):
            return [(st, st.alloc(ListObj('list', ob.segs[k.args[0].v:])))]
        return [(st, T('sublist', lv, k))]
    s = E.implicit(st, T('item', lv, k), 'IndexError')
    if s is None:
        return []
    if E.typeof(k, s) == 'int' and isinstance(lv, Comp):
        return [(s, E.elem_at(lv, k, s))]
    return [(s, T('item', lv, k))]


def arr_item(E, st, o, k):
    ob = st.get(o)
    if arr(st, k):
        kb = st.get(k)
        s = E.implicit(st, T('compress', ob.elem, kb.elem), 'IndexError')
        if s is None:
            return []
        return [(s, new_array(s, T('compress', ob.elem, kb.elem), T('len', T('compress', ob.elem, kb.elem)), ob.dk))]
    if isinstance(k, K) and isinstance(k.v, int):
        return [(st, T('item', ob.elem, k))]
    if isinstance(k, K) and k.v is Ellipsis:
        return [(st, new_array(st, ob.elem, ob.length, ob.dk, '', o))]
    if E.typeof(k, st) == 'int':
        return [(st, T('item', ob.elem, k))]
    if isinstance(k, T) and k.op == 'slice' and all(x == NONE for x in k.args):
        return [(st, new_array(st, ob.elem, ob.length, ob.dk, '', o))]
    fk = E.freeze_deep(k, st)
    s = E.implicit(st, T('sub', ob.elem, fk), 'IndexError')
    if s is None:
        return []
    return [(s, new_array(s, T('sub', ob.elem, fk), T('len', T('sub', ob.elem, fk)), ob.dk, '', o))]


def const_slice(k):
    if isinstance(k, T) and k.op == 'slice' and all(isinstance(x, K) and (x.v is None or isinstance(x.v, int))
                                                    for x in k.args):
        return slice(*[x.v for x in k.args])
    return None


def setitem(E, st, o, k, v):
    if is_vars(o):
        return vars_set(E, st, o, k, v)
    if isinstance(o, Ref):
        ob = st.get(o)
        if ob.kind == 'inst' and isinstance(ob.cls, ClassInfo):
            fi = E.p.find_method(ob.cls, '__setitem__')
            if fi:
                return E.call_fn(Fn(fi), [o, k, v], {}, st)
        p = payload(st, o)
        if p is not None:
            return dict_set(E, st, o, k, v)
        if isinstance(ob, ListObj):
            E.emit('listwrite', st, list=o, how='setitem')
            m = st.mut(o)
            if isinstance(k, K) and isinstance(k.v, int) and all(s[0] == 'one' for s in ob.segs) and \
                    -len(ob.segs) <= k.v < len(ob.segs):
                segs = list(ob.segs)
                segs[k.v] = ('one', v)
                m.segs = tuple(segs)
            elif isinstance(k, K) and isinstance(k.v, int) and all(s[0] == 'one' for s in ob.segs) and ob.kind == 'list':
                E.raise_(st, 'IndexError')
                return []
            elif const_slice(k) is not None and all(s[0] == 'one' for s in ob.segs) and \
                    E.fixed_items(v, st) is not None:
                segs = list(ob.segs)
                try:
                    segs[const_slice(k)] = [('one', x) for x in E.fixed_items(v, st)]
                except ValueError:
                    E.raise_(st, 'ValueError')
                    return []
                m.segs = tuple(segs)
            else:
                m.segs = (('upd', E.listval(o, st) if ob.segs else Tup(()), E.freeze_deep(k, st), E.freeze_deep(v, st)),)
            return [(st, NONE)]
        if ob.kind == 'array':
            ev = E.elem_of(v, st)
            vdk = st.get(v).dk if arr(st, v) else None
            elem = None
            if arr(st, k):
                ke = st.get(k).elem
                if arr(st, v):
                    if isinstance(ev, T) and ev.op == 'compress' and ev.args[1] == ke:
                        elem = ite(ke, cast(ev.args[0], vdk, ob.dk), ob.elem)
                    else:
                        elem = Unk('scatter')
                else:
                    elem = ite(ke, cast(ev, vdk, ob.dk), ob.elem)
            elif (isinstance(k, T) and k.op == 'slice' and all(x == NONE for x in k.args)) or \
                    (isinstance(k, K) and k.v is Ellipsis):
                elem = cast(ev, vdk, ob.dk)
            elif isinstance(k, T) and isinstance(ob.elem, T) and k.op in ('not', 'and', 'or'):
                elem = None
            arr_write(E, st, o, 'item assignment', k, v, elem)
            return [(st, NONE)]
        E.emit('itemstore', st, obj=o, key=k, value=v)
        return [(st, NONE)]
    if isinstance(o, T) and o.op == 'dictval':
        st.taint = st.taint + (E.site(),)
    E.emit('itemstore', st, obj=o, key=k, value=v)
    return [(st, NONE)]


def dict_set(E, st, o, k, v):
    p = payload(st, o)
    E.emit('dictstore', st, obj=o, key=k, value=v)
    d = st.mut(p)
    ents = tuple(e for e in d.ents if not (e[0] == 'one' and e[1] == k))
    d.ents = ents + (('one', k, v),)
    return [(st, NONE)]


def del_item(E, st, o, k):
    if is_vars(o):
        return vars_del(E, st, o, k)
    p = payload(st, o)
    if p is not None:
        E.emit('dictdel', st, obj=o, key=k)
        d = st.mut(p)
        if d.base is None and isinstance(k, K) and all(e[0] == 'one' and isinstance(e[1], K) and e[1] != k
                                                       for e in d.ents):
            E.raise_(st, 'KeyError')
            return []
        if all(e[0] == 'one' for e in d.ents) and d.base is None:
            d.ents = tuple(e for e in d.ents if e[1] != k)
        else:
            d.ents = d.ents + (('del', k),)
        return [(st, NONE)]
    if isinstance(o, Ref) and isinstance(st.get(o), ListObj):
        E.emit('listwrite', st, list=o, how='delitem')
        ob = st.get(o)
        if isinstance(k, K) and isinstance(k.v, int) and all(s[0] == 'one' for s in ob.segs) and ob.segs:
            segs = list(ob.segs)
            try:
                del segs[k.v]
            except IndexError:
                E.raise_(st, 'IndexError')
                return []
            st.mut(o).segs = tuple(segs)
        elif const_slice(k) is not None and all(s[0] == 'one' for s in ob.segs):
            segs = list(ob.segs)
            del segs[const_slice(k)]
            st.mut(o).segs = tuple(segs)
        else:
            st.mut(o).segs = (('del', E.listval(o, st), k),)
        return [(st, NONE)]
    E.emit('itemstore', st, obj=o, key=k, value=None)
    return [(st, NONE)]


def dict_update(E, st, o, args, kw, quiet=False):
    p = payload(st, o)
    kw = dict(kw)
    star = kw.pop('*', None)
    dstar = kw.pop('**', None)
    src = args[0] if args else (T('item', star, K(0)) if star is not None else None)
    if len(args) > 1:
        E.raise_(st, 'TypeError')
        return []
    d = st.get(p)
    fresh = d.base is None and not d.ents
    if src is not None:
        sp = payload(st, src)
        if sp is not None:
            so = st.get(sp)
            if not quiet:
                E.emit('dictupdate', st, obj=o, src=src, value=E.dictval(src, st))
            d = st.mut(p)
            if fresh:
                d.base, d.ents, d.nonempty = so.base, so.ents, so.nonempty
                d.lazy = dict(so.lazy)
                for a in ('factory', 'intkeys'):
                    if hasattr(so, a):
                        setattr(d, a, getattr(so, a))
            elif so.base is None and all(e[0] == 'one' for e in so.ents):
                for e in so.ents:
                    d.ents = tuple(x for x in d.ents if not (x[0] == 'one' and x[1] == e[1])) + (e,)
            else:
                d.ents = d.ents + (('many', E.dictval(src, st)),)
        else:
            it = E.fixed_items(src, st)
            if it is not None:
                pairs = [E.fixed_items(x, st) for x in it]
                if all(y is not None for y in pairs):
                    if any(len(y) != 2 for y in pairs):
                        E.raise_(st, 'ValueError')
                        return []
                    it = [Tup(y) for y in pairs]
                E.consume(src, st)
            if it is not None and all(isinstance(x, Tup) and len(x.items) == 2 for x in it):
                for x in it:
                    if not quiet:
                        E.emit('dictstore', st, obj=o, key=x.items[0], value=x.items[1])
                    d = st.mut(p)
                    d.ents = tuple(y for y in d.ents if not (y[0] == 'one' and y[1] == x.items[0])) + \
                        (('one', x.items[0], x.items[1]),)
            else:
                sv = E.seqval(src, st)
                s = E.implicit(st, T('dictof', sv), 'Exception')
                if s is None:
                    return []
                st = s
                if not quiet:
                    E.emit('dictupdate', st, obj=o, src=src, value=sv)
                d = st.mut(p)
                if isinstance(sv, T) and sv.op == 'keys' and E.typeof(src, st) == 'dict':
                    sv = src            # update from a mapping
                comp = sv if isinstance(sv, Comp) and isinstance(sv.elem, Tup) and len(sv.elem.items) == 2 else None
                if isinstance(sv, T) and sv.op in ('zip', 'enumerate', 'items'):
                    lid = 'd:%s' % E.site()
                    comp = Comp([(sv, lid)], [], E.elem_at(sv, It(lid), st))
                if comp is not None:
                    d.ents = d.ents + (('comp', comp),)
                    E.canon_dict(st, p)
                elif fresh:
                    d.base = sv if E.typeof(sv, st) == 'dict' else T('dictof', sv)
                else:
                    d.ents = d.ents + (('many', sv),)
    for k, v in kw.items():
        if not quiet:
            E.emit('dictstore', st, obj=o, key=K(k), value=v)
        d = st.mut(p)
        d.ents = tuple(x for x in d.ents if not (x[0] == 'one' and x[1] == K(k))) + (('one', K(k), v),)
    if dstar is not None:
        if not quiet:
            E.emit('dictupdate', st, obj=o, src=dstar, value=dstar)
        d = st.mut(p)
        if d.base is None and not d.ents:
            d.base = dstar
        elif dstar != T('emptykw'):
            d.ents = d.ents + (('many', dstar),)
    return [(st, NONE)]


# ------------------------------------------------------------------ methods
PURE_STR = {'strip', 'lstrip', 'rstrip', 'split', 'rsplit', 'replace', 'lower', 'upper', 'startswith', 'endswith',
            'decode', 'encode', 'join', 'format', 'find', 'rfind', 'index', 'count', 'splitlines', 'title', 'isdigit',
            'partition', 'rpartition', 'zfill', 'capitalize', 'isalpha', 'isspace', 'isidentifier', 'isnumeric',
            'translate', 'casefold', 'isdecimal', 'isupper', 'islower', 'ljust', 'rjust', 'center', 'expandtabs',
            'swapcase', 'removeprefix', 'removesuffix', 'isalnum'}


def call_method(E, st, o, name, args, kw):
    if is_vars(o):
        return vars_method(E, st, o, name, args, kw)
    if isinstance(o, T) and o.op == 'rematch':
        return match_method(E, st, o, name, args, kw)
    if isinstance(o, T) and o.op == 'namedtuple' and name in ('_replace', '_asdict'):
        names = o.args[0].args[1]
        it = E.fixed_items(o, st)
        if it is not None and isinstance(names, Tup) and not args:
            cur = {n.v: x for n, x in zip(names.items, it)}
            if name == '_asdict':
                d = DictObj()
                d.ents = tuple(('one', K(k), v) for k, v in cur.items())
                return [(st, st.alloc(d))]
            if set(kw) <= set(cur):
                cur.update(kw)
                return [(st, T('namedtuple', o.args[0], Tup(list(cur.values())), ()))]
            E.raise_(st, 'ValueError')
            return []
        return [(st, Unk('namedtuple method'))]
    if isinstance(o, T) and o.op == 'slice' and name == 'indices' and len(args) == 1:
        if isinstance(args[0], K) and all(isinstance(x, K) for x in o.args):
            try:
                return [(st, Tup([K(x) for x in slice(*[y.v for y in o.args]).indices(args[0].v)]))]
            except (TypeError, ValueError) as e:
                E.raise_(st, type(e).__name__)
                return []
        return [(st, Unk('slice indices'))]
    if isinstance(o, T) and o.op == 'call' and o.args[0] == 're.compile' and not o.args[2] and name == 'sub' and not kw:
        r = re_sub_call(E, st, o.args[1], args)
        if r is not None:
            return r
    if isinstance(o, T) and o.op == 'call' and o.args[0] == 're.compile' and len(o.args[1]) == 1 and not o.args[2] and \
            isinstance(o.args[1][0], K) and 're.' + name in MODELS:
        return MODELS['re.' + name](E, st, [o.args[1][0]] + list(args), kw)
    raw = False
    if '.' in name:
        cls, name = name.split('.', 1)
        raw = True
        if cls == 'object':
            m = MODELS.get('builtins.object.' + name)
            if m:
                return m(E, st, [o] + args, kw)
            return [(st, Unk('object.' + name))]
    if isinstance(o, Ref):
        ob = st.get(o)
        if ob.kind == 'inst' and isinstance(ob.cls, ClassInfo) and not raw:
            fi = E.p.find_method(ob.cls, name)
            if fi:
                return E.call_fn(Fn(fi), [o] + args, kw, st)
        p = payload(st, o)
        if p is not None:
            return dict_method(E, st, o, p, name, args, kw)
        if isinstance(ob, ListObj):
            return list_method(E, st, o, ob, name, args, kw)
        if ob.kind == 'array':
            return arr_method(E, st, o, ob, name, args, kw)
        if ob.kind == 'inst' and ob.cls in ('file', 'zip', 'mmap'):
            for h in E.file_hooks:
                r = h(E, st, o, name, args, kw)
                if r is not None:
                    return r
            return file_method(E, st, o, ob, name, args, kw)
        if ob.kind == 'inst' and ob.cls == 'generator':
            if name in ('__next__',):
                return b_next(E, st, [o], {})
            return [(st, NONE)]
        return [(st, Unk('method ' + name))]
    E.emit('mcall', st, obj=o, name=name, args=args, kwargs=kw)
    for h in E.method_hooks:
        r = h(E, st, o, name, args, kw)
        if r is not None:
            return r
    if isinstance(o, Unk):
        return [(st, Unk('method ' + name, o.deps))]
    if isinstance(o, T) and o.op == 'structobj' and 'struct.' + name in E.models:
        return E.models['struct.' + name](E, st, [o.args[0]] + list(args), kw)
    if isinstance(o, K) and isinstance(o.v, float) and name in ('is_integer', 'hex', 'conjugate') and not args:
        return [(st, K(getattr(o.v, name)()))]
    if isinstance(o, K) and isinstance(o.v, (str, bytes)) and all(isinstance(a, K) for a in args) and not kw:
        if name in PURE_STR and name not in ('encode', 'decode'):
            try:
                r = getattr(o.v, name)(*[a.v for a in args])
                if isinstance(r, list):
                    return [(st, st.alloc(ListObj('list', [('one', K(x)) for x in r])))]
                return [(st, K(r))]
            except TypeError:
                E.raise_(st, 'TypeError')
                return []
            except Exception:
                pass
    if name == 'join' and isinstance(o, K) and isinstance(o.v, (str, bytes)) and len(args) == 1:
        it = E.fixed_items(args[0], st)
        if it is not None and all(isinstance(x, K) and isinstance(x.v, type(o.v)) for x in it):
            E.consume(args[0], st)
            return [(st, K(o.v.join(x.v for x in it)))]
    if isinstance(o, K) and isinstance(o.v, (str, bytes)) and name == ('encode' if isinstance(o.v, str) else 'decode') \
            and not kw and len(args) == 1 and isinstance(args[0], K) and isinstance(args[0].v, str):
        try:
            return [(st, K(getattr(o.v, name)(args[0].v)))]
        except (UnicodeError, LookupError):
            pass
    if name == 'format' and E.typeof(o, st) == 'str':
        return [(st, T('fmt', (o,) + tuple(E.freeze_deep(a, st) for a in args)))]
    if name == 'get' and isinstance(o, T) and o.op == 'dictval':
        if o.args[0] is None and all(e[0] == 'one' for e in o.args[1]) and args and len(o.args[1]) < 24:
            out, rest = [], [st]
            for e in reversed(o.args[1]):
                nxt = []
                for s1 in rest:
                    for s2, b in E.branch(E.cmp('==', e[1], args[0], s1), s1):
                        if b:
                            out.append((s2, e[2]))
                        else:
                            nxt.append(s2)
                rest = nxt
            return out + [(s1, args[1] if len(args) > 1 else kw.get('default', NONE)) for s1 in rest]
        return [(st, T('dictget', o, *args))]
    if name == 'keys' and not args:
        return [(st, T('keys', dict_root(o)))]
    if name in ('items', 'keys', 'values') and not args and isinstance(o, T) and o.op == 'dictval' and o.args[0] is None \
            and all(e[0] == 'one' for e in o.args[1]):
        return [(st, Tup([Tup(e[1:]) if name == 'items' else e[1 if name == 'keys' else 2] for e in o.args[1]]))]
    if name in MUTATORS and (isinstance(o, Tup) or isinstance(o, T) and o.op == 'dictval'):
        # a container at module or class level that changes after import
        st.taint = st.taint + (E.site(),)
        return [(st, Unk('shared container'))]
    if name == 'items' and not args:
        return [(st, T('items', o))]
    if name == 'values' and not args:
        return [(st, T('values', o))]
    if name == '_make' and isinstance(o, T) and o.op == 'ntclass':
        return [(st, T('ntmake', o, E.freeze_deep(args[0], st)))]
    ty = E.typeof(o, st)
    py = {'int': int, 'str': str, 'bytes': bytes, 'list': list, 'tuple': tuple, 'dict': dict, 'set': set,
          'float': float, 'bool': bool, 'NoneType': type(None)}
    if ty in py and not hasattr(py[ty], name):
        E.raise_(st, 'AttributeError')
        return []
    if ty == 'dict' and name == 'get' and args:
        c = E.contains(args[0], o, st)
        out = []
        for s, b in E.branch(c, st):
            out.append((s, T('item', o, args[0]) if b else (args[1] if len(args) > 1 else NONE)))
        return out
    if name == 'decode':
        t = T('decode', o, *[E.freeze_deep(a, st) for a in args])
    else:
        t = T('mcall', o, name, tuple(E.freeze_deep(a, st) for a in args),
              tuple(sorted((k, E.freeze_deep(v, st)) for k, v in kw.items())))
    names = ['Exception']
    if name in ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'split', 'startswith', 'endswith',
                'splitlines') and ty in ('str', 'bytes'):
        return [(st, t)]
    s = E.implicit(st, t, *names)
    return [(s, t)] if s is not None else []


def dict_method(E, st, o, p, name, args, kw):
    d = st.get(p)
    if name == '__setitem__':
        return dict_set(E, st, o, args[0], args[1])
    if name == '__getitem__':
        return dict_get(E, st, p, args[0])
    if name == '__contains__':
        return [(st, E.contains(args[0], p, st))]
    if name == '__len__':
        return [(st, E.length(p, st))]
    if name == '__iter__':
        return b_iter(E, st, [p], {})
    if name == '__delitem__':
        return del_item(E, st, o, args[0])
    if name in ('update', '__init__', '__ior__'):
        r = dict_update(E, st, o, args, kw)
        return [(s, o if name == '__ior__' else NONE) for s, _ in r]
    if name == 'setdefault':
        k = args[0]
        v = args[1] if len(args) > 1 else NONE
        out = []
        for s, b in E.branch(E.contains(k, p, st), st):
            if b:
                out += dict_get(E, s, p, k)
            else:
                out += [(s2, v) for s2, _ in dict_set(E, s, o, k, v)]
        return out
    if name == 'get':
        k = args[0]
        dflt = args[1] if len(args) > 1 else kw.get('default', NONE)
        out = []
        for s, b in E.branch(E.contains(k, p, st), st):
            out += dict_get(E, s, p, k) if b else [(s, dflt)]
        return out
    if name in ('keys', 'items', 'values'):
        if d.base is None and all(e[0] == 'one' for e in d.ents):
            if name == 'keys':
                return [(st, st.alloc(ListObj('set', [('one', e[1]) for e in d.ents])))]
            if name == 'values':
                return [(st, Tup([e[2] for e in d.ents]))]
            return [(st, Tup([Tup([e[1], e[2]]) for e in d.ents]))]
        return [(st, T(name, dict_root(E.dictval(p, st)) if name == 'keys' else E.dictval(p, st)))]
    if name == 'pop':
        k = args[0]
        E.emit('dictdel', st, obj=o, key=k)
        out = []
        for s, b in E.branch(E.contains(k, p, st), st):
            if b:
                for s2, v in dict_get(E, s, p, k):
                    dd = s2.mut(p)
                    dd.ents = tuple(e for e in dd.ents if not (e[0] == 'one' and e[1] == k)) if dd.base is None and \
                        all(e[0] == 'one' for e in dd.ents) else dd.ents + (('del', k),)
                    out.append((s2, v))
            elif len(args) > 1:
                out.append((s, args[1]))
            else:
                E.raise_(s, 'KeyError')
        return out
    if name == 'popitem':
        E.emit('dictdel', st, obj=o, key=None)
        m = st.mut(p)
        m.ents = m.ents + (('del', Unk('popitem')),)
        return [(st, Unk('popitem'))]
    if name == 'clear':
        E.emit('dictdel', st, obj=o, key=None)
        m = st.mut(p)
        m.ents, m.base, m.lazy = (), None, {}
        return [(st, NONE)]
    if name == 'copy':
        n = d.copy()
        return [(st, st.alloc(n))]
    return [(st, Unk('dict.' + name))]


def list_method(E, st, o, ob, name, args, kw):
    if hasattr(str, name) and not hasattr(list, name) and not hasattr(set, name):
        E.raise_(st, 'AttributeError')
        return []
    m = None
    if name in ('append', 'add', 'appendleft'):
        E.emit('listwrite', st, list=o, how=name, value=args[0])
        v = args[0]
        if ob.kind == 'set' and ('one', v) in ob.segs:
            return [(st, NONE)]
        m = st.mut(o)
        m.segs = ob.segs + (('one', v),) if name != 'appendleft' else (('one', v),) + ob.segs
        return [(st, NONE)]
    if name in ('extend', 'update'):
        E.emit('listwrite', st, list=o, how=name, value=args[0] if args else None)
        it = E.fixed_items(args[0], st)
        a = args[0]
        m = st.mut(o)
        if isinstance(a, Ref) and isinstance(st.get(a), ListObj):
            m.segs = ob.segs + st.get(a).segs
        elif it is not None:
            m.segs = ob.segs + tuple(('one', x) for x in it)
        else:
            m.segs = ob.segs + (('seq', E.seqval(a, st)),)
        return [(st, NONE)]
    if name == 'insert':
        E.emit('listwrite', st, list=o, how=name, value=args[1])
        m = st.mut(o)
        if args[0] == K(0):
            m.segs = (('one', args[1]),) + ob.segs
        elif isinstance(args[0], K) and all(s[0] == 'one' for s in ob.segs):
            segs = list(ob.segs)
            segs.insert(args[0].v, ('one', args[1]))
            m.segs = tuple(segs)
        else:
            m.segs = (('unk', 'insert'),)
        return [(st, NONE)]
    if name == 'pop':
        E.emit('listwrite', st, list=o, how=name)
        i = args[0] if args else K(-1)
        if isinstance(i, K) and ob.segs:
            if i.v == -1 and ob.segs[-1][0] == 'one':
                st.mut(o).segs = ob.segs[:-1]
                return [(st, ob.segs[-1][1])]
            if i.v == 0 and ob.segs[0][0] == 'one':
                st.mut(o).segs = ob.segs[1:]
                return [(st, ob.segs[0][1])]
        elif isinstance(i, K) and not ob.segs:
            E.raise_(st, 'IndexError')
            return []
        v = T('popped', E.listval(o, st), i)
        st.mut(o).segs = (('popped', E.listval(o, st), i),)
        return [(st, v)]
    if name in ('sort', 'reverse', 'remove', 'clear', 'discard'):
        E.emit('listwrite', st, list=o, how=name)
        m = st.mut(o)
        if name == 'sort' and not kw and not args:
            lv = E.listval(o, st)
            it = E.fixed_items(o, st)
            order = const_order(it) if it is not None else None
            if order is not None:
                m.segs = tuple(('one', it[i]) for i in order)
                return [(st, NONE)]
            m.segs = (('seq', T('sorted', strip_seq(lv))),)
        elif name == 'clear':
            m.segs = ()
        elif name == 'reverse':
            m.segs = (('seq', T('reversed', E.listval(o, st))),)
        else:
            m.segs = (('unk', name),)
        return [(st, NONE)]
    if name == 'copy':
        return [(st, st.alloc(ListObj(ob.kind, ob.segs)))]
    if name == 'index' and len(args) == 1:
        it = E.fixed_items(o, st)
        if it is not None and isinstance(args[0], K) and all(isinstance(x, K) for x in it):
            hit = [i for i, x in enumerate(it) if x.v == args[0].v]
            if hit:
                return [(st, K(hit[0]))]
            E.raise_(st, 'ValueError')
            return []
    if name in ('index', 'count'):
        t = T('list' + name, E.listval(o, st), *args)
        s = E.implicit(st, t, 'ValueError')
        return [(s, t)] if s is not None else []
    if ob.kind == 'set' and name in ('union', 'intersection', 'difference', 'symmetric_difference'):
        op = {'union': 'setor', 'intersection': 'setand', 'difference': 'setsub', 'symmetric_difference': 'setxor'}[name]
        r = const_setop(E, st, op, o, args[0]) if len(args) == 1 else None
        if r is not None:
            return [(st, r)]
        return [(st, T(op, E.listval(o, st) if ob.segs else Tup(()), E.seqval(args[0], st)))]
    if ob.kind == 'set' and name in ('issubset', 'issuperset', 'isdisjoint') and len(args) == 1:
        x = E.const_set(o, st)
        it = E.fixed_items(args[0], st)
        if x is not None and it is not None and all(isinstance(y, K) for y in it):
            return [(st, K(getattr(x, name)(it)))]
    if name in ('__len__',):
        return [(st, E.length(o, st))]
    if name in ('__iter__',):
        return b_iter(E, st, [o], {})
    if name in ('__contains__',):
        return [(st, E.contains(args[0], o, st))]
    return [(st, Unk('list.' + name))]


ARR_MUT = {'fill', 'sort', 'put', 'resize', 'itemset', 'partition', 'setfield', 'setflags', 'byteswap'}


def arr_method(E, st, o, ob, name, args, kw):
    if name == 'copy':
        return [(st, new_array(st, ob.elem, ob.length, ob.dk, '', None, ob.ndim))]
    if name == 'astype':
        dk = dtype_kind(args[0] if args else kw.get('dtype')) or '?'
        if 'copy' in kw and E.truth(kw['copy'], st) is not True:
            return [(st, o if dk == ob.dk else new_array(st, ob.elem, ob.length, dk, '', o, ob.ndim))]
        return [(st, new_array(st, cast(ob.elem, ob.dk, dk), ob.length, dk, '', None, ob.ndim))]
    if name in ARR_MUT:
        if name == 'byteswap' and not args and not kw:
            return [(st, new_array(st, T('byteswap', ob.elem), ob.length))]
        elem = args[0] if name == 'fill' and args else None
        arr_write(E, st, o, name, None, args, elem)
        return [(st, NONE)]
    if name in ('view', 'reshape', 'ravel', 'squeeze', 'transpose', 'swapaxes'):
        return [(st, new_array(st, ob.elem, ob.length, ob.dk, '', o))]
    if name in ('flatten',):
        return [(st, new_array(st, ob.elem, ob.length, ob.dk))]
    if name == 'tolist':
        return [(st, st.alloc(ListObj('list', [('seq', T('elems', ob.elem, ob.length))])))]
    if name in ('__iand__', '__ior__'):
        return inplace(E, st, {'__iand__': 'BitAnd', '__ior__': 'BitOr'}[name], o, args[0])
    if name in ('__and__', '__or__'):
        return binop(E, st, {'__and__': 'BitAnd', '__or__': 'BitOr'}[name], o, args[0])
    if name == '__getitem__':
        return arr_item(E, st, o, args[0])
    if name == '__setitem__':
        return setitem(E, st, o, args[0], args[1])
    if name in ('all', 'any'):
        return [(st, T('arr' + name, ob.elem))]
    if name in ('compress',):
        return arr_item(E, st, o, args[0])
    if name in ('nonzero', 'cumsum', 'take', 'repeat', 'argsort', 'clip', 'round'):
        return [(st, new_array(st, T('amethod', name, ob.elem, tuple(E.freeze_deep(a, st) for a in args)), Unk('len')))]
    return [(st, T('amethod', name, ob.elem, tuple(E.freeze_deep(a, st) for a in args)))]


def file_method(E, st, o, ob, name, args, kw):
    E.emit('filecall', st, file=o, name=name, args=args)
    pos = ob.attrs.get('$pos', Unk('pos'))
    if name == 'close':
        st.mut(o).attrs['$closed'] = TRUE
        E.emit('close', st, file=o)
        return [(st, NONE)]
    if ob.attrs.get('$closed') == TRUE and name in ('read', 'readline', 'readlines', 'tell', 'seek', 'readinto', 'write',
                                                    '__enter__', '__iter__', '__next__'):
        E.emit('closedread', st, file=o)
        E.raise_(st, 'ValueError')
        return []
    if name == 'tell':
        s = E.implicit(st, T('tell', o), 'Exception')
        return [(s, pos)] if s is not None else []
    if name == 'seek':
        s = E.implicit(st, T('seek', o, *args), 'Exception')
        if s is None:
            return []
        wh = args[1] if len(args) > 1 else kw.get('whence', K(0))
        if wh == K(0):
            s.mut(o).attrs['$pos'] = args[0]
        elif wh == K(1):
            s.mut(o).attrs['$pos'] = lin_add(pos, args[0])
        else:
            s.mut(o).attrs['$pos'] = T('pos', 'end', *args)
        return [(s, s.get(o).attrs['$pos'])]
    if name == 'read' and isinstance(ob.attrs.get('$lines'), Tup):
        s = E.implicit(st, T('read', o, pos), 'Exception')
        if s is None:
            return []
        s.mut(o).attrs['$pos'] = T('pos', 'within', pos, *args)
        return [(s, Sym('chunk', ob.attrs['$typ'].v))]
    if name == 'read' and '$header' in ob.attrs and isinstance(pos, K) and args and isinstance(args[0], K):
        # a file with a known header: what follows is symbolic, byte by byte
        s = E.implicit(st, T('read', o, pos), 'Exception')
        if s is None:
            return []
        h, b = ob.attrs['$header'].v, ob.attrs['$base'].v
        n = args[0].v
        s.mut(o).attrs['$pos'] = K(pos.v + n)
        if b <= pos.v and pos.v + n <= b + len(h):
            return [(s, K(h[pos.v - b:pos.v - b + n]))]
        return [(s, T('rawbytes', ob.attrs.get('$ident', o), pos, args[0]))]
    if name == 'read':
        n = args[0] if args else kw.get('size', NONE)
        v = T('bytes', o, pos, n)
        s = E.implicit(st, v, 'Exception')
        if s is None:
            return []
        if n == NONE:
            s.mut(o).attrs['$pos'] = T('pos', 'end')
        elif isinstance(pos, Unk):
            pass
        else:
            s.mut(o).attrs['$pos'] = lin_add(pos, n)
        return [(s, v)]
    if name == 'readline' and isinstance(ob.attrs.get('$lines'), Tup) and isinstance(pos, K):
        L = ob.attrs['$lines'].items
        s = E.implicit(st, T('readline', o, pos), 'Exception')
        if s is None:
            return []
        if pos.v >= len(L):
            return [(s, ob.attrs['$eof'])]
        s.mut(o).attrs['$pos'] = K(pos.v + 1)
        return [(s, L[pos.v])]
    if name == 'readline':
        v = T('line', o, pos)
        s = E.implicit(st, v, 'Exception')
        if s is None:
            return []
        s.mut(o).attrs['$pos'] = lin_add(pos, T('linelen', o, pos)) if not s.loops else Unk('pos')
        return [(s, v)]
    if name in ('readlines',):
        s = E.implicit(st, T('readlines', o), 'Exception')
        if s is None:
            return []
        s.mut(o).attrs['$pos'] = T('pos', 'end')
        return [(s, s.alloc(ListObj('list', [('seq', T('lines', o))])))]
    if name == '__enter__':
        return [(st, o)]
    if name == '__exit__':
        return call_method(E, st, o, 'close', [], {})
    t = T('fcallm', o, name, tuple(E.freeze_deep(a, st) for a in args))
    s = E.implicit(st, t, 'Exception')
    return [(s, t)] if s is not None else []
